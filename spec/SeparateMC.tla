---------------------------- MODULE SeparateMC ----------------------------
(* The projection criterion against its definition: hulls meet exactly when  *)
(* some fine convex combination does (checked on sets small enough that a    *)
(* common point can be found among simple ones), and a smallest shift ends   *)
(* the overlap while nothing shorter along any candidate does.               *)
(* Modes "mc2", "mc3"; "gen2", "gen3" write the pairs.                       *)
EXTENDS Separate, TLC, Json, IOUtils
Mode == IOEnv.SP_MODE
NX == atoi(IOEnv.SP_N)
VARIABLES S, T, st
vars == <<S, T, st>>
G2 == {<<x, y>> : x, y \in 0..NX-1}
Few(G, k) == {Q \in SUBSET G : Q # {} /\ Cardinality(Q) <= k}
Cube == {<<x, y, z>> : x, y, z \in 0..1}
Move(Q, v) == {Add(q, v) : q \in Q}
Init == /\ st = 0
        /\ IF Mode \in {"mc2", "gen2"} THEN S \in Few(G2, 3) /\ T \in Few(G2, 3) /\ (Mode = "mc2" \/ Solid2(S, T))
           ELSE \E Q \in Few(Cube, NX), R \in Few(Cube, NX), v \in {<<0, 0, 0>>, <<1, 0, 0>>, <<1, -1, 0>>, <<2, 0, 1>>} :
                S = Move(Q, <<0, 0, 0>>) /\ T = Move(R, v) /\ Cardinality(S) >= NX - 1 /\ Cardinality(T) >= NX - 1
Next == st = 0 /\ Mode \in {"mc2", "mc3"} /\ st' = 1 /\ UNCHANGED <<S, T>>
\* plane: do the triangles (segments, points) share a point, from first principles
On(a, b, p) == Dot(Perp(Sub(b, a)), Sub(p, a)) = 0 /\ Dot(Sub(p, a), Sub(p, b)) <= 0
InHull(Q, p) == \/ p \in Q \/ \E a, b \in Q : On(a, b, p)
                \/ \E a, b, c \in Q : /\ Dot(Perp(Sub(b, a)), Sub(p, a)) > 0 /\ Dot(Perp(Sub(c, b)), Sub(p, b)) > 0 /\ Dot(Perp(Sub(a, c)), Sub(p, c)) > 0
CrossIn(a, b, c, d) == Dot(Perp(Sub(b, a)), Sub(c, a)) * Dot(Perp(Sub(b, a)), Sub(d, a)) < 0 /\ Dot(Perp(Sub(d, c)), Sub(a, c)) * Dot(Perp(Sub(d, c)), Sub(b, c)) < 0
Meet2 == (\E p \in S : InHull(T, p)) \/ (\E p \in T : InHull(S, p)) \/ (\E a, b \in S, c, d \in T : CrossIn(a, b, c, d))
M2 == Measures(S, T, Axes2(S, T) \cup Flat2Axes(S, T))
Plane == (st = 1 /\ Mode = "mc2") => (Verdict(M2) # "apart") = Meet2
\* symmetric, and a shift by the smallest depth (scaled to whole numbers) touches
Sym == (st = 1) => LET A == IF Mode = "mc2" THEN Axes2(S, T) \cup Flat2Axes(S, T) ELSE Axes3(S, T) IN
         Verdict(Measures(S, T, A)) = Verdict(Measures(T, S, A))
Times(Q, k) == {[i \in 1..Len(q) |-> k * q[i]] : q \in Q}
ShiftEnds == (st = 1) =>
   LET A == IF Mode = "mc2" THEN Axes2(S, T) ELSE Axes3(S, T)
       ok == IF Mode = "mc2" THEN Solid2(S, T) ELSE Solid3(S, T)
       M == Measures(S, T, A)
   IN (ok /\ Verdict(M) = "overlap") =>
      \A m \in Smallest(M) : LET q == Dot(m[1], m[1]) IN
        Verdict(Measures(Times(S, q), Move(Times(T, q), [i \in 1..Len(m[1]) |-> m[1][i] * m[2]]), A)) = "touch"
SeqOf(Q) == LET RECURSIVE f(_) f(R) == IF R = {} THEN <<>> ELSE LET r == CHOOSE r \in R : TRUE IN r \o f(R \ {r}) IN f(Q)
Emit == (Mode \in {"gen2", "gen3"}) => PrintT("@@" \o ToJson(<<IF Mode = "gen2" THEN 2 ELSE 3, Cardinality(S)>> \o SeqOf(S) \o SeqOf(T)))
MCSpec == Init /\ [][Next]_vars
=============================================================================
