------------------------------ MODULE SliceMC ------------------------------
(* Every level assignment on small closed surfaces (tetrahedron, bipyramid,  *)
(* octahedron, torus of seven vertices), and the same with a triangle taken  *)
(* out; the walk along the section: start anywhere, leave by the side where  *)
(* what is above stays left, give up at a rim.  The generator lists the      *)
(* surfaces and levels.                                                      *)
EXTENDS Slice, TLC, Json, IOUtils
VARIABLES m, V, left, loop, done
mvars == <<m, V, left, loop, done>>
Mode == IOEnv.SLICE_MODE
Big == IOEnv.SLICE_MAX = "big"
Tetra == <<<<0,2,1>>, <<0,1,3>>, <<1,2,3>>, <<2,0,3>>>>
Bipyr == <<<<0,1,3>>, <<1,2,3>>, <<2,0,3>>, <<1,0,4>>, <<2,1,4>>, <<0,2,4>>>>
Octa == <<<<0,1,4>>, <<1,2,4>>, <<2,3,4>>, <<3,0,4>>, <<1,0,5>>, <<2,1,5>>, <<3,2,5>>, <<0,3,5>>>>
Torus == [i \in 1..14 |-> LET k == (i-1) \div 2 IN IF ((i % 2)) = 1 THEN <<k, ((k+1) % 7), ((k+3) % 7)>> ELSE <<k, ((k+3) % 7), ((k+2) % 7)>>]
Meshes == <<Tetra, Bipyr, Octa, Torus, SubSeq(Octa, 2, 8), SubSeq(Bipyr, 2, 6)>>
NV == <<4, 5, 6, 7, 6, 5>>
Lev(i) == IF Mode = "mc" THEN (IF i = 4 THEN 0..1 ELSE 0..2) ELSE IF i = 1 THEN 0..4 ELSE IF i = 2 THEN (IF Big THEN 0..4 ELSE 0..3) ELSE IF i = 4 THEN (IF Big THEN 0..2 ELSE 0..1) ELSE IF Big THEN 0..3 ELSE 0..2
MCInit == /\ m \in 1..6 /\ V \in [1..NV[m] -> Lev(m)]
          /\ loop = <<>> /\ done = {} /\ left = (IF Mode = "mc" THEN {t \in 1..Len(Meshes[m]) : Cut(Meshes[m], V, t, 1)} ELSE {})
T == Meshes[m]
Start == loop = <<>> /\ \E t \in left : loop' = <<t>> /\ left' = left \ {t} /\ UNCHANGED <<m, V, done>>
Walk == loop # <<>> /\ LET N == NextT(T, V, loop[Len(loop)], 1) IN
   IF N = {} \* a rim: everything on the chain is dropped
   THEN loop' = <<>> /\ left' = left \ OpenT(T, V, 1) /\ UNCHANGED <<m, V, done>>
   ELSE \E t \in N : IF t = loop[1] THEN loop' = <<>> /\ done' = done \cup {loop} /\ UNCHANGED <<m, V, left>>
                     ELSE loop' = Append(loop, t) /\ left' = left \ {t} /\ UNCHANGED <<m, V, done>>
MCNext == Mode = "mc" /\ (Start \/ Walk)
MCSpec == MCInit /\ [][MCNext]_mvars
TwoWays == Mode = "mc" => \A t \in 1..Len(T) : Cut(T, V, t, 1) => Cardinality(OutS(T, V, t, 1)) = 1 /\ Cardinality(InS(T, V, t, 1)) = 1 /\ Cardinality(NextT(T, V, t, 1)) <= 1
Rng(s) == {s[i] : i \in 1..Len(s)}
LoopsOK == Mode = "mc" => \A p \in done : Cardinality(Rng(p)) = Len(p) /\ \A q \in done : q # p => Rng(q) \cap Rng(p) = {}
DoneOK == (Mode = "mc" /\ loop = <<>> /\ left = {}) => UNION {Rng(p) : p \in done} = {t \in 1..Len(T) : Cut(T, V, t, 1)} \ OpenT(T, V, 1)
Emit == Mode = "gen" => PrintT("@@" \o ToJson(<<m>> \o V))
=============================================================================
