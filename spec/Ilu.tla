--------------------------------- MODULE Ilu ---------------------------------
(* C16: fill levels of an incomplete factorization, and the factorization.   *)
(* A pattern is a set of pairs <<i, j>> with i # j, blocks counted from 1.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt
INF == 1000
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* the level of an entry: 0 in the pattern; otherwise one more than the larger
\* level of two entries <<i,k>>, <<k,j>> met in the elimination of k < i, j,
\* by the elimination order that makes it smallest
RECURSIVE LevK(_, _, _)
LevK(n, L, k) ==
  IF k > n THEN L
  ELSE LevK(n, [i \in 1..n |-> [j \in 1..n |->
         IF i > k /\ j > k /\ i # j THEN Min2(L[i][j], Max2(L[i][k], L[k][j]) + 1) ELSE L[i][j]]], k+1)
Level(n, pat) == LevK(n, [i \in 1..n |-> [j \in 1..n |-> IF <<i, j>> \in pat THEN 0 ELSE INF]], 1)
FillOf(n, L, p) == {q \in (1..n) \X (1..n) : q[1] # q[2] /\ L[q[1]][q[2]] < INF /\ (p = -1 \/ L[q[1]][q[2]] <= p)}
Fill(n, pat, p) == FillOf(n, Level(n, pat), p)
\* entries found row by row, the level kept being that of the first way they arise
RECURSIVE RowFirst(_, _, _, _, _), RowsFirst(_, _, _, _, _)
Keeps(p, l) == p = -1 \/ l + 1 <= p
RowFirst(n, R, i, k, p) ==
  IF k >= i THEN R
  ELSE RowFirst(n, IF k \notin DOMAIN R[i] \/ ~Keeps(p, R[i][k]) THEN R
                   ELSE LET add == {j \in DOMAIN R[k] : j > k /\ j # i /\ j \notin DOMAIN R[i] /\ Keeps(p, R[k][j])} IN
                        [R EXCEPT ![i] = [j \in DOMAIN R[i] \cup add |-> IF j \in add THEN Max2(R[i][k], R[k][j]) + 1 ELSE R[i][j]]], i, k+1, p)
RowsFirst(n, pat, R, i, p) ==
  IF i > n THEN R
  ELSE RowsFirst(n, pat, RowFirst(n, [R EXCEPT ![i] = [j \in {j \in 1..n : <<i, j>> \in pat} |-> 0]], i, 1, p), i+1, p)
FirstFill(n, pat, p) == LET R == RowsFirst(n, pat, [i \in 1..n |-> [j \in {} |-> 0]], 1, p) IN {q \in (1..n) \X (1..n) : q[2] \in DOMAIN R[q[1]]}
\* between the two: what an incomplete factorization of level p may keep
FillAllowed(n, pat, p, P) == IF p = 0 THEN P = pat ELSE FirstFill(n, pat, p) \subseteq P /\ P \subseteq Fill(n, pat, p)
SymPat(pat) == \A q \in pat : <<q[2], q[1]>> \in pat
=============================================================================
