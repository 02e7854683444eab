----------------------------- MODULE MasterSlave -----------------------------
(* C17: degrees of freedom tied to masters.  ms[d] is the master of dof d or *)
(* -1; dofs count from 0, the dofs of block b are b*w .. b*w + w-1.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt
Bk(d, w) == d \div w
Tied(ms, d) == ms[d+1] # -1
NDofs(ms) == Len(ms)
\* a tie is between the same coordinate of two blocks, and a master is free
TieOK(ms, w) == \A d \in 0..(Len(ms)-1) : Tied(ms, d) =>
   LET m == ms[d+1] IN m \in 0..(Len(ms)-1) /\ ~Tied(ms, m) /\ (m % w) = (d % w) /\ m # d
Pairs(ms, w) == {<<Bk(d, w), Bk(ms[d+1], w)>> : d \in {d \in 0..(Len(ms)-1) : Tied(ms, d)}}   \* <<slave, master>>
\* couplings between blocks: those there were, slave with master, and what
\* passes from a slave to its master along rows and along columns
RECURSIVE CloseMS(_, _)
CloseMS(T, Q) ==
  LET rowAdd == {<<y[1][2], y[2][2]>> : y \in {z \in T \X Q : z[2][1] = z[1][1] /\ z[2][2] # z[1][2]}}
      colAdd == {<<y[2][1], y[1][2]>> : y \in {z \in T \X Q : z[2][2] = z[1][1] /\ z[2][1] # z[1][2]}}
      N == Q \cup T \cup {<<t[2], t[1]>> : t \in T} \cup rowAdd \cup colAdd
  IN IF N = Q THEN Q ELSE CloseMS(T, N)
Coupled(psup, ms, w) == CloseMS(Pairs(ms, w), psup)
\* the dofs that follow dof d (itself included when it is free)
Followers(ms, d) == IF Tied(ms, d) THEN {} ELSE {d} \cup {s \in 0..(Len(ms)-1) : ms[s+1] = d}
\* the reduced system; a tied dof keeps a 1 on the diagonal
Reduced(M, ms) ==
  LET Fo == [d \in 0..(Len(ms)-1) |-> Followers(ms, d)] IN
  [i \in 1..Len(M) |-> [j \in 1..Len(M) |->
    IF Tied(ms, i-1) \/ Tied(ms, j-1) THEN (IF i = j THEN 1 ELSE 0)
    ELSE MapThenSumSet(LAMBDA q : M[q[1]+1][q[2]+1], Fo[i-1] \X Fo[j-1])]]
ReducedRhs(b, ms) == [i \in 1..Len(b) |-> MapThenSumSet(LAMBDA d : b[d+1], Followers(ms, i-1))]
=============================================================================
