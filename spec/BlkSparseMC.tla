---------------------------- MODULE BlkSparseMC ----------------------------
(* Compressed rows (pattern, values, diagonal blocks apart) next to the      *)
(* dense matrix they stand for: after every short history of assembly the    *)
(* two agree, for every pattern on two blocks of two dofs and three of one.  *)
(* The generator lists histories of operations.                              *)
EXTENDS BlkSparse, TLC, Json, IOUtils
VARIABLES n, w, pat, crs, dia, M, hist
mvars == <<n, w, pat, crs, dia, M, hist>>
Mode == IOEnv.BLK_MODE
Depth == atoi(IOEnv.BLK_MAX)
Off(k) == {p \in (0..(k-1)) \X (0..(k-1)) : p[1] # p[2]}
Blk == [1..w -> [1..w -> Int]]
Z == [a \in 1..w |-> [b \in 1..w |-> 0]]
MCInit == /\ IF Mode = "mc" THEN n \in 2..3 /\ w = 4-n ELSE n = 2 /\ w = 1
          /\ IF Mode = "mc" THEN pat \in SUBSET Off(n) ELSE pat = {}
          /\ crs = [p \in pat |-> Z] /\ dia = [b \in 0..(n-1) |-> Z] /\ M = Zeros(n*w) /\ hist = <<>>
N == n*w
Flags == [1..N -> {0, 1}]
El == <<1, 2, -1, 3, 2, -2, 1, 1, 3, -1, 2, 1, -3, 1, 2, 2>>
\* the implementation's way
Merge(rows, cols) == LET K == Len(cols)  at(ir, jc, a, b) == El[((((ir-1)*K + (jc-1))*w + a-1)*w + b-1) + 1]
                         S(p) == {q \in (1..Len(rows)) \X (1..K) : <<rows[q[1]], cols[q[2]]>> = p} IN
  /\ \A i \in 1..Len(rows), j \in 1..K : rows[i] # cols[j] => <<rows[i], cols[j]>> \in pat
  /\ crs' = [p \in pat |-> [a \in 1..w |-> [b \in 1..w |-> crs[p][a][b] + MapThenSumSet(LAMBDA q : at(q[1], q[2], a, b), S(p))]]]
  /\ dia' = [k \in 0..(n-1) |-> [a \in 1..w |-> [b \in 1..w |-> dia[k][a][b] + MapThenSumSet(LAMBDA q : at(q[1], q[2], a, b), S(<<k, k>>))]]]
  /\ M' = AddElem(M, w, rows, cols, El) /\ hist' = Append(hist, 1)
Fix(fl) ==
  /\ crs' = [p \in pat |-> [a \in 1..w |-> [b \in 1..w |-> IF fl[p[1]*w+a] # 0 \/ fl[p[2]*w+b] # 0 THEN 0 ELSE crs[p][a][b]]]]
  /\ dia' = [k \in 0..(n-1) |-> [a \in 1..w |-> [b \in 1..w |-> IF fl[k*w+a] # 0 \/ fl[k*w+b] # 0 THEN (IF a = b THEN 1 ELSE 0) ELSE dia[k][a][b]]]]
  /\ M' = SetFix(M, fl) /\ hist' = Append(hist, 2)
Dia(x) == crs' = crs /\ dia' = [k \in 0..(n-1) |-> [a \in 1..w |-> [b \in 1..w |-> dia[k][a][b] + (IF a = b THEN x ELSE 0)]]] /\ M' = AddEye(M, x) /\ hist' = Append(hist, 3)
Scale(s) == /\ crs' = [p \in pat |-> [a \in 1..w |-> [b \in 1..w |-> crs[p][a][b] * s[p[1]+1] * s[p[2]+1]]]]
            /\ dia' = [k \in 0..(n-1) |-> [a \in 1..w |-> [b \in 1..w |-> dia[k][a][b] * s[k+1] * s[k+1]]]] /\ M' = ScaleB(M, w, s) /\ hist' = Append(hist, 4)
MCNext == Mode = "mc" /\ Len(hist) < Depth /\ UNCHANGED <<n, w, pat>> /\
  (\/ \E rows \in UNION {[1..k -> 0..(n-1)] : k \in 1..2}, cols \in UNION {[1..k -> 0..(n-1)] : k \in 1..2} : Merge(rows, cols)
   \/ \E fl \in Flags : Fix(fl)
   \/ Dia(2) \/ \E s \in [1..n -> {1, -2}] : Scale(s))
GenNext == Mode = "gen" /\ Len(hist) < Depth /\ \E o \in 1..9 : hist' = Append(hist, o) /\ UNCHANGED <<n, w, pat, crs, dia, M>>
MCSpec == MCInit /\ [][MCNext \/ GenNext]_mvars
Dense == [i \in 1..N |-> [j \in 1..N |-> LET p == <<B(i, w), B(j, w)>>  a == D(i, w)+1  b == D(j, w)+1 IN
            IF p[1] = p[2] THEN dia[p[1]][a][b] ELSE IF p \in pat THEN crs[p][a][b] ELSE 0]]
Refines == Mode = "mc" => Dense = M
ProductOK == Mode = "mc" => SetFix(M, [i \in 1..N |-> IF i = 1 THEN 1 ELSE 0]) = SetCol(SetRow(SetDia(M, w, [i \in 1..N |-> IF i = 1 THEN 1 ELSE 0], 1), w, [i \in 1..N |-> IF i = 1 THEN 1 ELSE 0]), w, [i \in 1..N |-> IF i = 1 THEN 1 ELSE 0])
UniqueOK == Mode = "mc" => \A p \in DOMAIN crs : p[1] # p[2]
Emit == (Mode = "gen" /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
