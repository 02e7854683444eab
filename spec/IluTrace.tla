------------------------------ MODULE IluTrace ------------------------------
EXTENDS BlkSparse, Ilu, TraceBase
VARIABLES l, M, w, pat, P
tvars == <<l, M, w, pat, P>>
PairsOf(rows) == UNION {{<<i, rows[i][k]+1>> : k \in 1..Len(rows[i])} : i \in 1..Len(rows)}
\* scalar elimination on the expanded pattern; every pivot is 1 or -1
In(A, Q, b, i, j) == B(i, b) = B(j, b) \/ <<B(i, b)+1, B(j, b)+1>> \in Q
RECURSIVE RowLU(_, _, _, _, _, _), AllLU(_, _, _, _, _)
RowLU(A, Q, b, G, r, c) ==
  IF c > Len(A) THEN G
  ELSE IF ~In(A, Q, b, r, c) THEN RowLU(A, Q, b, G, r, c+1)
  ELSE LET e == A[r][c] - MapThenSumSet(LAMBDA m : G[r][m] * G[m][c], 1..(Min2(r, c)-1)) IN
       RowLU(A, Q, b, [G EXCEPT ![r][c] = IF c <= r THEN e ELSE e * G[r][r]], r, c+1)
AllLU(A, Q, b, G, r) == IF r > Len(A) THEN G ELSE AllLU(A, Q, b, RowLU(A, Q, b, G, r, 1), r+1)
UMul(G, z) == [i \in 1..Len(G) |-> z[i] + SumTo(LAMBDA j : IF j > i THEN G[i][j] * z[j] ELSE 0, Len(G))]
LMul(G, z) == [i \in 1..Len(G) |-> SumTo(LAMBDA j : G[i][j] * z[j], i)]
UpTo(e, A) == M' = A /\ (Chk("values of the matrix", e.d = A) = TRUE) /\ UNCHANGED <<w, pat, P>>
TraceInit == l = 1 /\ M = <<>> /\ w = 1 /\ pat = {} /\ P = {}
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Pattern" /\ LET Q == PairsOf(e.want)  G == PairsOf(e.got) IN
          /\ pat' = Q /\ P' = G /\ UNCHANGED <<M, w>>
          /\ (Chk("an entry is listed twice", \A i \in 1..Len(e.got) : NoDup(e.got[i])) = TRUE)
          /\ (Chk("an entry on the diagonal", \A q \in G : q[1] # q[2]) = TRUE)
          /\ (Chk("fill", FillAllowed(Len(e.want), Q, e.p, G)) = TRUE)
     \/ e.ev = "Factor" /\ UNCHANGED <<M, w, pat, P>>
          /\ LET G == TLCEval(AllLU(e.d, P, e.w, Zeros(Len(e.d)), 1)) IN
             /\ (Chk("pivots of the case", \A i \in 1..Len(e.d) : G[i][i] \in {1, -1}) = TRUE)
             /\ (Chk("decomposed", e.ok = 1) = TRUE)
             /\ \A k \in 1..Len(e.z) : ((Chk("right hand side of the case", LMul(G, UMul(G, e.x[k])) = e.r[k]) = TRUE) /\ (Chk("back substitution", e.z[k] = e.x[k]) = TRUE))
     \/ e.ev = "Exact" /\ UNCHANGED <<M, w, pat, P>>
          /\ (Chk("right hand side of the case", Mul(e.d, e.x) = e.b) = TRUE)
          /\ (Chk("solution", e.out = e.x) = TRUE)
     \/ e.ev = "Init" /\ M' = Zeros(e.n * e.w) /\ w' = e.w /\ UNCHANGED <<pat, P>>
     \/ e.ev = "Zero" /\ UpTo(e, Zeros(Len(M)))
     \/ e.ev = "Merge" /\ UpTo(e, AddElem(M, w, e.rows, e.cols, e.e))
     \/ e.ev = "Add" /\ UpTo(e, [M EXCEPT ![e.i+1] = [@ EXCEPT ![e.j+1] = @ + e.v]])
     \/ e.ev = "Fix" /\ UpTo(e, SetFix(M, e.fl))
     \* solving uses the matrix up
     \/ e.ev = "Solve" /\ UNCHANGED <<M, w, pat, P>>
          /\ (Chk("right hand side of the case", Mul(IF Has(e, "fl") THEN SetFix(M, e.fl) ELSE M, e.x) = e.b) = TRUE)
          /\ (Chk("solution", e.out = e.x) = TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
