-------------------------------- MODULE IluMC --------------------------------
(* Row by row, the entries of a row are completed while walking over it      *)
(* (levels may be lowered on the way), then factorized on the pattern        *)
(* obtained, over the field of seven elements so that every pivot can be     *)
(* inverted exactly.                                                         *)
EXTENDS Ilu, TLC, Json, IOUtils
VARIABLES n, pat, p, rows, i, k, A, F, ph
mvars == <<n, pat, p, rows, i, k, A, F, ph>>
Mode == IOEnv.ILU_MODE
Top == atoi(IOEnv.ILU_MAX)
Pairs(m) == {q \in (1..m) \X (1..m) : q[1] # q[2]}
MCInit == /\ n \in 1..Top /\ pat \in SUBSET Pairs(n) /\ p \in (IF Mode = "gen" THEN {-1, 0, 1, 2} ELSE {-1, 1, 2})
          /\ (Top > 4 /\ n > 4 => SymPat(pat))
          /\ rows = [r \in 1..n |-> [j \in {} |-> 0]] /\ i = 1 /\ k = 0 /\ A = <<>> /\ F = <<>> /\ ph = "row"
\* the row of block i is begun: its entries have level 0
Begin == ph = "row" /\ i <= n /\ k = 0
         /\ rows' = [rows EXCEPT ![i] = [j \in {j \in 1..n : <<i, j>> \in pat} |-> 0]] /\ k' = 1 /\ UNCHANGED <<n, pat, p, i, A, F, ph>>
Deep(l) == p # -1 /\ l + 1 > p
\* entry k of the row passes on the later entries of row k
Walk == ph = "row" /\ i <= n /\ k >= 1 /\ k < i /\ k' = k+1 /\ UNCHANGED <<n, pat, p, i, A, F, ph>>
        /\ IF k \notin DOMAIN rows[i] \/ Deep(rows[i][k]) THEN rows' = rows
           ELSE LET add == {j \in DOMAIN rows[k] : j > k /\ j # i /\ ~Deep(rows[k][j])}
                    lv(j) == Max2(rows[i][k], rows[k][j]) + 1 IN
                rows' = [rows EXCEPT ![i] = [j \in DOMAIN rows[i] \cup add |->
                   IF j \notin DOMAIN rows[i] THEN lv(j) ELSE IF j \in add /\ IOEnv.ILU_RULE = "min" THEN Min2(lv(j), rows[i][j]) ELSE rows[i][j]]]
EndRow == ph = "row" /\ i <= n /\ k = i /\ i' = i+1 /\ k' = 0 /\ UNCHANGED <<n, pat, p, rows, A, F, ph>>
P == {q \in (1..n) \X (1..n) : q[2] \in DOMAIN rows[q[1]]}
\* values: some matrix on the pattern, diagonal chosen so that no pivot vanishes
M7(x) == ((x % 7) + 7) % 7
Inv7 == [x \in 1..6 |-> CHOOSE y \in 1..6 : (x*y) % 7 = 1]
Val(r, c) == IF <<r, c>> \in pat THEN ((3*r + 5*c + r*c) % 6) + 1 ELSE 0
Sum(S, G(_)) == M7(MapThenSumSet(G, S))
\* F[r][c]: row r of the lower factor, diagonal, upper factor with unit diagonal
RECURSIVE Elim(_, _, _, _)
Elim(Q, G, r, c) == \* entry (r,c) after the earlier columns are eliminated
  M7(Val(r, c) - MapThenSumSet(LAMBDA m : G[r][m] * G[m][c], {m \in 1..(Min2(r, c)-1) : (<<r, m>> \in Q) /\ (<<m, c>> \in Q)}))
RECURSIVE RowLow(_, _, _, _)
RowLow(Q, G, r, c) == \* fills columns c.. of row r
  IF c > n THEN G
  ELSE IF c = r THEN RowLow(Q, [G EXCEPT ![r][c] = ((2*r) % 6) + 1], r, c+1)
  ELSE IF <<r, c>> \notin Q THEN RowLow(Q, G, r, c+1)
  ELSE LET e == Elim(Q, G, r, c) IN
       RowLow(Q, [G EXCEPT ![r][c] = IF c < r THEN e ELSE M7(e * Inv7[G[r][r]])], r, c+1)
RECURSIVE Rows(_, _, _)
Rows(Q, G, r) == IF r > n THEN G ELSE Rows(Q, RowLow(Q, G, r, 1), r+1)
Factor == ph = "row" /\ i > n /\ ph' = "val"
          /\ F' = Rows(P, [r \in 1..n |-> [c \in 1..n |-> 0]], 1) /\ UNCHANGED <<n, pat, p, rows, i, k, A>>
LU(G) == [r \in 1..n |-> [c \in 1..n |-> M7(MapThenSumSet(LAMBDA m : G[r][m] * (IF m = c THEN 1 ELSE G[m][c]), 1..Min2(r, c)))]]
GenNext == FALSE /\ UNCHANGED mvars
MCSpec == MCInit /\ [][Mode = "mc" /\ (Begin \/ Walk \/ EndRow \/ Factor)]_mvars
PatternOK == (ph = "val") => FillAllowed(n, pat, p, P) /\ (p \in {-1, 1} => P = Fill(n, pat, p))
RuleOK == (ph = "val") => P = (IF IOEnv.ILU_RULE = "min" THEN Fill(n, pat, p) ELSE FirstFill(n, pat, p))
Symmetric == (ph = "val" /\ SymPat(pat)) => SymPat(P)
Closed == (ph = "val" /\ p = -1) => \A a, b, c \in 1..n : (a < b /\ a < c /\ b # c /\ <<b, a>> \in P /\ <<a, c>> \in P) => <<b, c>> \in P
Nested == (ph = "val" /\ p >= 1) => (pat \subseteq P /\ P \subseteq Fill(n, pat, -1) /\ Fill(n, pat, p-1) \subseteq P)
FactorOK == (ph = "val") => \A r, c \in 1..n : (r # c /\ <<r, c>> \in P) => LU(F)[r][c] = M7(Val(r, c))
CompleteOK == (ph = "val" /\ p = -1) => \A r, c \in 1..n : (r # c) => LU(F)[r][c] = M7(Val(r, c))
Bits(S) == [q \in 1..(n*n) |-> IF <<((q-1) \div n) + 1, ((q-1) % n) + 1>> \in S THEN 1 ELSE 0]
Emit == (Mode = "gen") => PrintT("@@" \o ToJson(<<n, p>> \o Bits(pat)))
=============================================================================
