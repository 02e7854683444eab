------------------------------ MODULE IndexMC ------------------------------
(* All small point sequences (plane lattice, duplicates, every order): the   *)
(* pruned search of the tree finds the smallest distance.  And grid          *)
(* histories: objects put, moved, index rebuilt; the ring around a position  *)
(* holds every object closer than one cell.                                  *)
EXTENDS Index, TLC, Json, IOUtils
VARIABLES seq, at, ind
mvars == <<seq, at, ind>>
Mode == IOEnv.IDX_MODE
Max1 == atoi(IOEnv.IDX_MAX)
MCInit == seq = <<>> /\ at = <<>> /\ ind = <<>>
L2 == (0..2) \X (0..2)
Add == Mode = "mc" /\ ind = <<>> /\ at = <<>> /\ Len(seq) < Max1 /\ \E p \in L2 : seq' = Append(seq, p) /\ UNCHANGED <<at, ind>>
AddG == Mode = "gen" /\ Len(seq) < Max1 /\ \E x \in 0..7 : (IF seq = <<>> THEN TRUE ELSE seq[Len(seq)] <= x) /\ seq' = Append(seq, x) /\ UNCHANGED <<at, ind>>
\* grid of three cells of length 2 on a line: objects at 0..6 (6: clamped)
PutG == Mode = "mc" /\ seq = <<>> /\ Len(at) < 3 /\ ind = <<>> /\ \E x \in 0..6 : at' = Append(at, x) /\ UNCHANGED <<seq, ind>>
MoveG == Mode = "mc" /\ at # <<>> /\ \E i \in 1..Len(at), x \in 0..6 : at' = [at EXCEPT ![i] = x] /\ ind' = <<>> /\ UNCHANGED seq
Post == Mode = "mc" /\ at # <<>> /\ ind' = [c \in 0..2 |-> {i \in 1..Len(at) : Clamp(at[i] \div 2, 3) = c}] /\ UNCHANGED <<seq, at>>
MCNext == Add \/ AddG \/ PutG \/ MoveG \/ Post
MCSpec == MCInit /\ [][MCNext]_mvars
KdOK == (Mode = "mc" /\ seq # <<>>) => LET T == Kd(seq, 0, 2) IN \A q \in (-1..3) \X (-1..3) : KdNear(T, q, 0, 2, 999) = Min({Dq(seq[i], q) : i \in 1..Len(seq)})
RingOK == ind # <<>> => \A q \in -1..7 : LET c == Clamp(q \div 2, 3)  R == UNION {ind[b] : b \in {b \in 0..2 : c - b \in -1..1}} IN
            \A i \in 1..Len(at) : (at[i] - q <= 2 /\ q - at[i] <= 2) => i \in R
OnceOK == ind # <<>> => \A i \in 1..Len(at) : Cardinality({b \in 0..2 : i \in ind[b]}) = 1
Emit == Mode = "gen" /\ Len(seq) > 0 => PrintT("@@" \o ToJson(seq))
=============================================================================
