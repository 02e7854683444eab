----------------------------- MODULE BlkSparse -----------------------------
(* C15: the meaning of a block sparse matrix: a dense matrix, written as a   *)
(* sequence of rows; w = dofs of a block, indices from 0 inside the blocks.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt
Zeros(N) == [i \in 1..N |-> [j \in 1..N |-> 0]]
B(i, w) == (i-1) \div w          \* block of the dof i (1..)
D(i, w) == ((i-1) % w)
Nd(M) == Len(M)
Map2(M, F(_, _, _)) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> F(i, j, M[i][j])]]
\* element matrices: e[((ir*nc + jc)*w + di)*w + dj]
AddElem(M, w, rows, cols, e) ==
  LET R == Len(rows)  K == Len(cols)
      at(ir, jc, di, dj) == e[((((ir-1)*K + (jc-1))*w + di)*w + dj) + 1]
      W(bi, bj) == {p \in (1..R) \X (1..K) : rows[p[1]] = bi /\ cols[p[2]] = bj}
  IN Map2(M, LAMBDA i, j, v : v + MapThenSumSet(LAMBDA p : at(p[1], p[2], D(i, w), D(j, w)), W(B(i, w), B(j, w))))
SetDia(M, w, fl, x) == Map2(M, LAMBDA i, j, v : IF B(i, w) = B(j, w) /\ (fl[i] # 0 \/ fl[j] # 0) THEN (IF i = j THEN x ELSE 0) ELSE v)
SetRow(M, w, fl) == Map2(M, LAMBDA i, j, v : IF B(i, w) # B(j, w) /\ fl[i] # 0 THEN 0 ELSE v)
SetCol(M, w, fl) == Map2(M, LAMBDA i, j, v : IF B(i, w) # B(j, w) /\ fl[j] # 0 THEN 0 ELSE v)
SetFix(M, fl) == Map2(M, LAMBDA i, j, v : IF fl[i] # 0 \/ fl[j] # 0 THEN (IF i = j THEN 1 ELSE 0) ELSE v)
AddEye(M, x) == Map2(M, LAMBDA i, j, v : IF i = j THEN v + x ELSE v)
AddLump(M, w, lm, s) == Map2(M, LAMBDA i, j, v : IF i = j THEN v + lm[B(i, w)+1]*s ELSE v)
ScaleB(M, w, s) == Map2(M, LAMBDA i, j, v : v * s[B(i, w)+1] * s[B(j, w)+1])
ScaleL(M, s) == Map2(M, LAMBDA i, j, v : v * s[i] * s[j])
RECURSIVE SumTo(_, _)
SumTo(F(_), k) == IF k = 0 THEN 0 ELSE F(k) + SumTo(F, k-1)
Mul(M, x) == [i \in 1..Len(M) |-> SumTo(LAMBDA j : M[i][j] * x[j], Len(M))]
MulT(M, x) == [i \in 1..Len(M) |-> SumTo(LAMBDA j : M[j][i] * x[j], Len(M))]
\* a scalar matrix acting on blocks of k dofs
MulK(M, k, x) == [i \in 1..(Len(M)*k) |-> SumTo(LAMBDA j : M[B(i, k)+1][j] * x[(j-1)*k + D(i, k) + 1], Len(M))]
Sym(M) == \A i \in 1..Len(M), j \in 1..Len(M) : M[i][j] = M[j][i]
=============================================================================
