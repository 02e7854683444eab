------------------------------- MODULE BvhMC -------------------------------
(* Every hierarchy over a few objects on a line, objects moving and volumes  *)
(* being refitted: a pruned search sees exactly what looking at every object *)
(* sees.  In gen mode: all small multisets of lattice points, with a move.   *)
EXTENDS Bvh, TLC, Json, IOUtils
VARIABLES n, pos, F, vol, fresh, seq
mvars == <<n, pos, F, vol, fresh, seq>>
Mode == IOEnv.BVH_MODE
Max1 == atoi(IOEnv.BVH_MAX)
R == 0..3
HullOf(p, C) == <<Min({p[o] : o \in C}), Max({p[o] : o \in C})>>
MCInit == IF Mode = "mc"
  THEN /\ n \in 1..Max1 /\ pos \in [Objs(n) -> R] /\ F = {Objs(n)} /\ vol = <<>> /\ fresh = FALSE /\ seq = <<>>
  ELSE /\ n = 0 /\ pos = <<>> /\ F = {} /\ vol = <<>> /\ fresh = FALSE /\ seq = <<>>
Split == \E C \in F : Cardinality(C) > 1 /\ Parts(F, C) = {} /\ \E A \in SUBSET C : A # {} /\ A # C /\ F' = F \cup {A, C \ A} /\ UNCHANGED <<n, pos, vol, fresh, seq>>
Done == Hierarchy(F, n)
Refit == Done /\ ~fresh /\ vol' = [C \in F |-> HullOf(pos, C)] /\ fresh' = TRUE /\ UNCHANGED <<n, pos, F, seq>>
Move == Done /\ fresh /\ \E o \in Objs(n), x \in R : pos' = [pos EXCEPT ![o] = x] /\ fresh' = FALSE /\ UNCHANGED <<n, F, vol, seq>>
Add == Mode = "gen" /\ Len(seq) < Max1 /\ \E x \in 0..7 : (IF seq = <<>> THEN TRUE ELSE seq[Len(seq)] <= x) /\ seq' = Append(seq, x) /\ UNCHANGED <<n, pos, F, vol, fresh>>
MCNext == IF Mode = "mc" THEN Split \/ Refit \/ Move ELSE Add
MCSpec == MCInit /\ [][MCNext]_mvars
RECURSIVE Visit(_, _, _)
Visit(C, lo, hi) == IF vol[C][1] > hi \/ vol[C][2] < lo THEN {} ELSE IF Cardinality(C) = 1 THEN C
                    ELSE UNION {Visit(A, lo, hi) : A \in CHOOSE P \in Parts(F, C) : TRUE}
Abs(x) == IF x < 0 THEN -x ELSE x
Gap(v, q) == IF q < v[1] THEN v[1] - q ELSE IF q > v[2] THEN q - v[2] ELSE 0
RECURSIVE Best(_, _, _)
Best(C, q, cur) == IF Gap(vol[C], q) > cur THEN cur ELSE IF Cardinality(C) = 1 THEN LET d == Abs(pos[CHOOSE o \in C : TRUE] - q) IN IF d < cur THEN d ELSE cur
                   ELSE LET P == CHOOSE P \in Parts(F, C) : TRUE  A == CHOOSE A \in P : TRUE  B == CHOOSE B \in P : B # A IN Best(B, q, Best(A, q, cur))
SearchOK == fresh => \A lo \in R, hi \in R : Visit(Objs(n), lo, hi) = {o \in Objs(n) : pos[o] >= lo /\ pos[o] <= hi}
NearOK == fresh => \A q \in -1..4 : Best(Objs(n), q, 9) = Min({Abs(pos[o] - q) : o \in Objs(n)})
ContainOK == fresh => \A A \in F, B \in F : A \subseteq B => vol[B][1] <= vol[A][1] /\ vol[B][2] >= vol[A][2]
CodeOK == (Mode = "mc" /\ n = 1) => \A x \in 0..3, y \in 0..3, z \in 0..3 : Code(x, y, z) \in 0..63 /\ \A x2 \in 0..3 : (x2 > x => Code(x2, y, z) > Code(x, y, z))
                                  /\ (x2 > y => Code(x, x2, z) > Code(x, y, z)) /\ (x2 > z => Code(x, y, x2) > Code(x, y, z))
Emit == Mode = "gen" /\ Len(seq) > 0 => PrintT("@@" \o ToJson(seq))
=============================================================================
