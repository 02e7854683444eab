------------------------------ MODULE Formula ------------------------------
(* What a formula means.  A formula is a sequence of tokens; the grammar is  *)
(*   sum     = product { ("+"|"-") product }        grouped from the left    *)
(*   product = signed { ("*"|"/") signed }          grouped from the left    *)
(*   signed  = ("+"|"-") signed | power                                      *)
(*   power   = atom [ "^" signed ]                  grouped from the right   *)
(*   atom    = number | name | function "(" sum ")" | "(" sum ")"            *)
(* Values are fractions <<n, d>>, d > 0, in lowest terms; Undef where the    *)
(* value is no small fraction (roots, logarithms, division by zero, ...).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Numbers == ("0" :> <<0, 1>>) @@ ("1" :> <<1, 1>>) @@ ("2" :> <<2, 1>>) @@ ("3" :> <<3, 1>>) @@ ("4" :> <<4, 1>>) @@ ("7" :> <<7, 1>>)
        @@ ("0.5" :> <<1, 2>>) @@ (".5" :> <<1, 2>>) @@ ("2.25" :> <<9, 4>>) @@ ("3." :> <<3, 1>>) @@ ("10" :> <<10, 1>>) @@ ("1000" :> <<1000, 1>>) @@ ("007" :> <<7, 1>>)
BadNumbers == {"1.2.3", ".", "1..2"}
Functions == {"abs", "floor", "exp", "sin", "cos", "sqrt", "log"}
Signs == {"+", "-"}
Symbols == {"+", "-", "*", "/", "^", "(", ")"}
IsNumber(t) == t \in DOMAIN Numbers
IsWord(t) == t \notin Symbols
IsName(t) == IsWord(t) /\ ~IsNumber(t) /\ t \notin BadNumbers
\* two words in a row would be read as one
Separate(ts) == \A i \in 1..(Len(ts)-1) : ~(IsWord(ts[i]) /\ IsWord(ts[i+1]))

---- \* parsing: <<accepted, next position, tree>>
Fail == <<FALSE, 0, <<"none">>>>
At(ts, p) == IF p <= Len(ts) THEN ts[p] ELSE "end"
RECURSIVE PSum(_, _), PSumRest(_, _), PProd(_, _), PProdRest(_, _), PSigned(_, _), PPower(_, _), PAtom(_, _)
PSum(ts, p) == LET a == PProd(ts, p) IN IF ~a[1] THEN Fail ELSE PSumRest(ts, a)
PSumRest(ts, a) == IF At(ts, a[2]) \in Signs
                   THEN LET b == PProd(ts, a[2] + 1) IN IF ~b[1] THEN Fail ELSE PSumRest(ts, <<TRUE, b[2], <<"bin", ts[a[2]], a[3], b[3]>>>>)
                   ELSE a
PProd(ts, p) == LET a == PSigned(ts, p) IN IF ~a[1] THEN Fail ELSE PProdRest(ts, a)
PProdRest(ts, a) == IF At(ts, a[2]) \in {"*", "/"}
                    THEN LET b == PSigned(ts, a[2] + 1) IN IF ~b[1] THEN Fail ELSE PProdRest(ts, <<TRUE, b[2], <<"bin", ts[a[2]], a[3], b[3]>>>>)
                    ELSE a
PSigned(ts, p) == IF At(ts, p) \in Signs
                  THEN LET a == PSigned(ts, p + 1) IN IF ~a[1] THEN Fail ELSE <<TRUE, a[2], IF ts[p] = "-" THEN <<"neg", a[3]>> ELSE a[3]>>
                  ELSE PPower(ts, p)
PPower(ts, p) == LET a == PAtom(ts, p) IN
                 IF ~a[1] \/ At(ts, a[2]) # "^" THEN a
                 ELSE LET b == PSigned(ts, a[2] + 1) IN IF ~b[1] THEN Fail ELSE <<TRUE, b[2], <<"bin", "^", a[3], b[3]>>>>
PAtom(ts, p) == LET t == At(ts, p) IN
  IF t = "end" THEN Fail
  ELSE IF t = "(" THEN LET a == PSum(ts, p + 1) IN IF a[1] /\ At(ts, a[2]) = ")" THEN <<TRUE, a[2] + 1, a[3]>> ELSE Fail
  ELSE IF IsNumber(t) THEN <<TRUE, p + 1, <<"num", t>>>>
  ELSE IF ~IsName(t) THEN Fail
  ELSE IF At(ts, p + 1) # "(" THEN <<TRUE, p + 1, <<"name", t>>>>
  ELSE IF t \notin Functions THEN Fail
  ELSE LET a == PSum(ts, p + 2) IN IF a[1] /\ At(ts, a[2]) = ")" THEN <<TRUE, a[2] + 1, <<"fun", t, a[3]>>>> ELSE Fail
Parse(ts) == LET a == PSum(ts, 1) IN IF a[1] /\ a[2] = Len(ts) + 1 THEN a ELSE Fail
RECURSIVE Names(_)
Names(a) == CASE a[1] = "num" -> {} [] a[1] = "name" -> {a[2]} [] a[1] = "neg" -> Names(a[2])
              [] a[1] = "fun" -> Names(a[3]) [] a[1] = "bin" -> Names(a[3]) \cup Names(a[4])
WellFormed(ts, known) == Parse(ts)[1] /\ Names(Parse(ts)[3]) \subseteq known \cup {"PI"}

---- \* values
Undef == <<0, 0>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
MaxN == 30000
MaxD == 400
Norm(n, d) == IF d = 0 THEN Undef ELSE
  LET g == Gcd(Abs(n), Abs(d))  s == IF d < 0 THEN -1 ELSE 1  a == s * (n \div g)  b == s * (d \div g) IN
  IF n = 0 THEN <<0, 1>> ELSE IF Abs(a) > MaxN \/ b > MaxD THEN Undef ELSE <<a, b>>
Def(v) == v[2] # 0
RECURSIVE IPow(_, _)
IPow(v, k) == IF k = 0 THEN <<1, 1>> ELSE LET w == IPow(v, k - 1) IN IF ~Def(w) THEN Undef ELSE Norm(v[1] * w[1], v[2] * w[2])
Pow(v, w) == IF w[2] # 1 \/ Abs(w[1]) > 12 THEN Undef
             ELSE IF w[1] >= 0 THEN IPow(v, w[1])
             ELSE IF v[1] = 0 THEN Undef ELSE IPow(Norm(v[2], v[1]), -w[1])
Binary(o, v, w) ==
  IF ~Def(v) \/ ~Def(w) THEN Undef
  ELSE CASE o = "+" -> Norm(v[1] * w[2] + w[1] * v[2], v[2] * w[2])
         [] o = "-" -> Norm(v[1] * w[2] - w[1] * v[2], v[2] * w[2])
         [] o = "*" -> Norm(v[1] * w[1], v[2] * w[2])
         [] o = "/" -> IF w[1] = 0 THEN Undef ELSE Norm(v[1] * w[2], v[2] * w[1])
         [] o = "^" -> Pow(v, w)
PI == <<355, 113>>    \* closer to pi than the accuracy to which values are compared
Neg(v) == <<-v[1], v[2]>>
Squares == [k \in {i * i : i \in 0..150} |-> CHOOSE i \in 0..150 : i * i = k]
HalfTurns(v) == IF (2 * v[1] * PI[2]) % (v[2] * PI[1]) = 0 THEN (2 * v[1] * PI[2]) \div (v[2] * PI[1]) ELSE -999  \* v in units of pi/2
Apply(f, v) ==
  IF ~Def(v) THEN Undef
  ELSE CASE f = "abs" -> <<Abs(v[1]), v[2]>>
         [] f = "floor" -> IF v[2] # 1 /\ v[2] % 113 # 0 THEN <<v[1] \div v[2], 1>> ELSE IF v[2] = 1 THEN v ELSE Undef
         [] f = "exp" -> IF v[1] = 0 THEN <<1, 1>> ELSE Undef
         [] f = "log" -> IF v = <<1, 1>> THEN <<0, 1>> ELSE Undef
         [] f = "sqrt" -> IF v[1] >= 0 /\ v[1] \in DOMAIN Squares /\ v[2] \in DOMAIN Squares THEN <<Squares[v[1]], Squares[v[2]]>> ELSE Undef
         [] f = "sin" -> IF v[1] = 0 THEN <<0, 1>> ELSE IF HalfTurns(v) = -999 \/ Abs(v[1]) > 8000 THEN Undef
                         ELSE CASE HalfTurns(v) % 4 = 1 -> <<1, 1>> [] HalfTurns(v) % 4 = 3 -> <<-1, 1>> [] OTHER -> <<0, 1>>
         [] f = "cos" -> IF v[1] = 0 THEN <<1, 1>> ELSE IF HalfTurns(v) = -999 \/ Abs(v[1]) > 8000 THEN Undef
                         ELSE CASE HalfTurns(v) % 4 = 0 -> <<1, 1>> [] HalfTurns(v) % 4 = 2 -> <<-1, 1>> [] OTHER -> <<0, 1>>
RECURSIVE Value(_, _)
Value(a, env) ==
  CASE a[1] = "num" -> Numbers[a[2]]
    [] a[1] = "name" -> IF a[2] = "PI" THEN PI ELSE env[a[2]]
    [] a[1] = "neg" -> (LET v == Value(a[2], env) IN IF Def(v) THEN Neg(v) ELSE Undef)
    [] a[1] = "fun" -> Apply(a[2], Value(a[3], env))
    [] a[1] = "bin" -> Binary(a[2], Value(a[3], env), Value(a[4], env))
\* does the recorded number r = round(1000 v) denote the fraction v
Shows(r, v) == ~Def(v) \/ Abs(r - ((1000 * v[1]) \div v[2])) <= 1 + Abs(v[1]) \div (1000 * v[2])
=============================================================================
