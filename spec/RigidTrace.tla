----------------------------- MODULE RigidTrace -----------------------------
(* Recorded transformations.  A computed real x is recorded as the rounded  *)
(* F * x (or G * x for inverses); IsF says that it is the fraction num/den. *)
EXTENDS Rigid, TraceBase
VARIABLES l, X, s
tvars == <<l, X, s>>
F == 8192
G == 1024
IsF(x, num, den) == den > 0 /\ Abs(x) < 1500000000 \div den /\ Abs(den * x - F * num) <= den
IsFV(x, num, den) == Len(x) = Len(num) /\ \A i \in 1..Len(num) : IsF(x[i], num[i], den)
Near(a, b, tol) == Abs(a - b) <= tol
Sum1(v) == SumI(LAMBDA i : Abs(v[i]), 1, Len(v))
\* x is the unit vector along the integer vector S
Unit(x, S) == /\ \A i \in 1..Len(S) : Abs(x[i]) <= F + 1
              /\ \A i, j \in 1..Len(S) : Abs(x[i] * S[j] - x[j] * S[i]) <= Abs(S[i]) + Abs(S[j])
              /\ Dot(x, S) > 0 /\ Near(Sq(x), F * F, 4 * F)
\* the rounded F * m is a rotation
Rotation(x) == /\ \A i \in 1..9 : Abs(x[i]) <= F + 1
               /\ \A i, j \in 1..3 : Near(Dot(Row(3, x, i), Row(3, x, j)), IF i = j THEN F * F ELSE 0, 4 * F)
               /\ LET c == Crs(Row(3, x, 1), Row(3, x, 2)) IN \A i \in 1..3 : Near(c[i], F * x[6 + i], 4 * F)
\* the rounded G * x is the inverse of A / D
IsInv(n, x, A, D) == /\ \A i \in 1..(n * n) : Abs(x[i]) < 200000
                     /\ \A i, j \in 1..n : Near(SumI(LAMBDA k : En(n, A, i, k) * En(n, x, k, j), 1, n), IF i = j THEN G * D ELSE 0, Sum1(Row(n, A, i)))
Hom(d, A, v) == MV(d, A, Append(v, 1))
\* ---- values that are exact
Exact(e) == LET a == e.a[1]  b == IF Len(e.a) > 1 THEN e.a[2] ELSE << >>  g == IF Len(e.a) > 2 THEN e.a[3] ELSE << >>  k == IF Len(e.a) > 3 THEN e.a[4] ELSE << >> IN
  CASE e.o = "mm3" -> MM(3, a, b) [] e.o = "mmt3" -> MM(3, a, Tr(3, b)) [] e.o = "tmm3" -> MM(3, Tr(3, a), b)
    [] e.o = "tmmsa3" -> Add(Mul(k[1], MM(3, Tr(3, a), b)), Mul(k[2], g))
    [] e.o = "tr3" -> Tr(3, a) [] e.o = "det3" -> <<Det3(a)>> [] e.o = "mv3" -> MV(3, a, b) [] e.o = "tmv3" -> MV(3, Tr(3, a), b)
    [] e.o = "mvsa3" -> Add(Mul(k[1], MV(3, a, b)), Mul(k[2], g)) [] e.o = "tmvsa3" -> Add(Mul(k[1], MV(3, Tr(3, a), b)), Mul(k[2], g))
    [] e.o = "spin" -> Spin(a) [] e.o = "spinsa" -> Add(Mul(b[1], Spin(a)), Mul(b[2], g)) [] e.o = "id3" -> Mul(a[1], Id(3)) [] e.o = "idsa" -> Add(Mul(b[1], Id(3)), Mul(b[2], a))
    [] e.o = "outer" -> Outer(a, b) [] e.o = "bases" -> Mat(3, LAMBDA i, j : e.a[j][i]) [] e.o = "spin2" -> MM(3, Spin(a), Spin(a))
    [] e.o = "irot" -> Sub(Mul(Sq(a), Id(3)), Outer(a, a)) [] e.o = "sym3" -> Add(a, Tr(3, a))
    [] e.o = "symm" -> <<a[1], a[6], a[5], a[6], a[2], a[4], a[5], a[4], a[3]>> [] e.o = "diag" -> <<a[1], 0, 0, 0, a[2], 0, 0, 0, a[3]>>
    [] e.o = "trace" -> <<Trace(3, a)>> [] e.o = "sq" -> <<Sq(a)>> [] e.o = "frosym" -> <<2 * Sq(a) - a[1] * a[1] - a[2] * a[2] - a[3] * a[3]>>
    [] e.o = "add" -> Add(a, b) [] e.o = "sub" -> Sub(a, b) [] e.o = "mul" -> Mul(b[1], a) [] e.o = "same" -> a [] e.o = "addmul" -> Add(g, Mul(b[1], a))
    [] e.o = "m4" -> M4(a) [] e.o = "m4t" -> M4(Tr(3, a)) [] e.o = "m3" -> M3(a)
    [] e.o = "rt4t" -> Tr(4, Mat(4, LAMBDA i, j : IF i < 4 /\ j < 4 THEN En(3, a, i, j) ELSE IF j = 4 /\ i < 4 THEN b[i] ELSE IF i = j THEN 1 ELSE 0))
    [] e.o = "move4" -> AffMove(a).A [] e.o = "scale4" -> Mat(4, LAMBDA i, j : IF i # j THEN 0 ELSE IF i < 4 THEN a[i] ELSE 1)
    [] e.o = "bases4" -> Mat(4, LAMBDA i, j : IF i < 4 /\ j < 4 THEN e.a[j][i] ELSE IF i = j THEN 1 ELSE 0)
    [] e.o = "spin4" -> M4(Spin(a)) [] e.o = "move3" -> <<1, 0, a[1], 0, 1, a[2], 0, 0, 1>>
    [] e.o = "axial" -> <<a[8] - a[6], a[3] - a[7], a[4] - a[2]>> [] e.o = "dir2" -> <<a[1] * b[1] + a[2] * b[2], a[4] * b[1] + a[5] * b[2]>>
    [] e.o = "mm4" -> MM(4, a, b) [] e.o = "tr4" -> Tr(4, a) [] e.o = "mv4" -> MV(4, a, b) [] e.o = "vm4" -> MV(4, Tr(4, a), b)
    [] e.o = "m4v3" -> MV(3, M3(a), b) [] e.o = "v3m4" -> MV(3, Tr(3, M3(a)), b) [] e.o = "aff" -> LET y == Hom(4, a, b) IN <<y[1], y[2], y[3]>> [] e.o = "trans" -> <<a[4], a[8], a[12]>>
    [] e.o = "moved4" -> Mat(4, LAMBDA i, j : En(4, a, i, j) + (IF j = 4 /\ i < 4 THEN b[i] ELSE 0))
    [] e.o = "mm2" -> MM(2, a, b) [] e.o = "mv2" -> MV(2, a, b) [] e.o = "tr2" -> Tr(2, a) [] e.o = "det2" -> <<Det2(a)>> [] e.o = "gram2" -> MM(2, Tr(2, a), a)
    [] e.o = "vlv2" -> MM(2, MM(2, a, <<b[1], 0, 0, b[2]>>), Tr(2, a))
    [] e.o = "qq" -> QQ(a, b) [] e.o = "con" -> Con(a) [] e.o = "dot" -> <<Dot(a, b)>> [] e.o = "small" -> IF a[4] > 0 THEN a ELSE Mul(-1, a)
    [] OTHER -> <<"no such operation">>
\* ---- values that are fractions
Frac(x, n, d) == IF d < 0 THEN IsFV(x, Mul(-1, n), -d) ELSE IsFV(x, n, d)
Rational(e) == LET a == e.a[1]  b == IF Len(e.a) > 1 THEN e.a[2] ELSE << >>  x == e.x IN
  CASE e.o = "rot" -> Frac(x, R(a), Sq(a)) [] e.o = "rotT" -> Frac(x, R(Con(a)), Sq(a))
    [] e.o = "euler" -> LET q == QQ(QQ(a, b), e.a[3]) IN Frac(x, R(q), Sq(q))
    [] e.o = "hom3" -> LET y == Hom(4, a, b) IN Frac(x, <<y[1], y[2], y[3]>>, y[4]) [] e.o = "homxy" -> LET y == Hom(4, a, b) IN Frac(x, <<y[1], y[2]>>, y[4])
    [] e.o = "vhom3" -> LET y == Hom(4, Tr(4, a), b) IN Frac(x, <<y[1], y[2], y[3]>>, y[4])
    [] e.o = "hom2" -> LET y == Hom(3, a, b) IN Frac(x, <<y[1], y[2]>>, y[3])
    [] e.o = "flat" -> Frac(x, Sub(Mul(Sq(a), Id(3)), Outer(a, a)), Sq(a)) [] e.o = "mirror" -> Frac(x, Sub(Mul(Sq(a), Id(3)), Mul(2, Outer(a, a))), Sq(a))
    [] e.o = "turn2" -> Frac(x, LET c == a[2] * a[2] - a[1] * a[1]  z == 2 * a[1] * a[2] IN <<c, -z, 0, z, c, 0, 0, 0, Sq(a)>>, Sq(a))
    [] e.o = "inv2" -> Frac(x, <<a[4], -a[2], -a[3], a[1]>>, Det2(a))
    [] e.o = "ortho" -> LET w(i) == b[i] - a[i]  D == w(1) * w(2) * w(3) IN
         Frac(x, Mat(4, LAMBDA i, j : IF i = 4 THEN (IF j = 4 THEN D ELSE 0) ELSE IF i = j THEN 2 * (D \div w(i)) ELSE IF j = 4 THEN -(a[i] + b[i]) * (D \div w(i)) ELSE 0), D)
    [] e.o = "frustum" -> LET k == a[1]  r == a[2]  z0 == b[1]  z1 == b[2]  w == z1 - z0  D == r * w IN
         Frac(x, <<k * w, 0, 0, 0, 0, k * D, 0, 0, 0, 0, -(z0 + z1) * r, 2 * z0 * z1 * r, 0, 0, -D, 0>>, D)
    [] e.o = "inv3" -> Det3(a) = 0 \/ IsInv(3, x, a, 1)
    [] e.o = "inv4" -> IsInv(4, x, a, 1)
    [] e.o = "unit" -> Unit(x, a)
    [] e.o = "minrot" -> /\ Rotation(x)
                         /\ LET y == MV(3, x, a) IN \A i \in 1..3 : Near(y[i], F * b[i], Sum1(a))
                         /\ IF Crs(a, b) = <<0, 0, 0>> THEN IF a = b THEN \A i \in 1..9 : Near(x[i], F * Id(3)[i], 1) ELSE \A i, j \in 1..3 : Near(En(3, x, i, j), En(3, x, j, i), 2)
                            ELSE LET n == Crs(a, b)  y == MV(3, x, n) IN \A i \in 1..3 : Near(y[i], F * n[i], Sum1(n))
    [] e.o = "look" -> LET c == e.a[2]  u == e.a[3]  L == M3(x)  f == Sub(c, a)  y == MV(3, L, f)  z == MV(3, L, u)  o == MV(3, L, a) IN
         /\ Rotation(L) /\ Row(4, x, 4) = <<0, 0, 0, F>>
         /\ Near(y[1], 0, Sum1(f)) /\ Near(y[2], 0, Sum1(f)) /\ y[3] < 0
         /\ Near(z[1], 0, Sum1(u)) /\ z[2] > 0
         /\ \A i \in 1..3 : Near(o[i] + En(4, x, i, 4), 0, 1 + Sum1(a))
    [] e.o = "ray" -> LET w == b[3]  h == b[4]  D == w * h
                          p == <<(2 * b[1] + 1 - w) * h, (2 * b[2] + 1 - h) * w, D>> IN
         /\ Frac(<<x[1], x[2], x[3]>>, [i \in 1..3 |-> En(4, a, i, 1) * p[1] + En(4, a, i, 2) * p[2] + (En(4, a, i, 3) + En(4, a, i, 4)) * D], D)
         /\ Unit(<<x[4], x[5], x[6]>>, [i \in 1..3 |-> -En(4, a, i, 3)])
    [] OTHER -> FALSE
\* ---- a map built step by step: every way of carrying it along gives the same matrix
Step0(e) ==
  LET Y == After(OpMap(e.q), X)  z == IF e.q[1] = 3 THEN s * e.q[2] ELSE s IN
  /\ Chk("same map", \A k \in 1..Len(e.m) : IsFV(e.m[k], Y.A, Y.D))
  /\ Chk("images", \A k \in 1..Len(e.r) : \A i \in 1..Len(e.p) : IsFV(e.r[k][i], Img(Y, e.p[i]), Y.D))
  /\ Chk("inverse", Y.D > 100 \/ \A k \in 1..Len(e.v) : IsInv(4, e.v[k], Y.A, Y.D))
Consume(e) ==
  CASE e.ev = "Begin" -> X' = Still /\ s' = 1
    [] e.ev = "Step" -> (Step0(e) = TRUE) /\ X' = After(OpMap(e.q), X) /\ s' = IF e.q[1] = 3 THEN s * e.q[2] ELSE s
    [] e.ev = "E" -> (Chk(e.o, e.x = Exact(e)) = TRUE) /\ UNCHANGED <<X, s>>
    [] e.ev = "Q" -> (Chk(e.o, Rational(e)) = TRUE) /\ UNCHANGED <<X, s>>
    [] e.ev = "Start" -> UNCHANGED <<X, s>>
    [] OTHER -> (Chk("crash", FALSE) = TRUE) /\ UNCHANGED <<X, s>>
TraceInit == l = 1 /\ X = Still /\ s = 1
TraceNext == l <= NLines /\ Consume(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
