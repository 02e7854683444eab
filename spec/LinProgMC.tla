------------------------------ MODULE LinProgMC ------------------------------
(* The two-phase simplex method on a tableau of whole numbers over a common  *)
(* denominator; any improving column and any row that passes the ratio test  *)
(* may be chosen.  Whenever it stops, it has classified the program.         *)
(* Columns: 1..n variables, then slacks, then artificials; last: rhs.        *)
EXTENDS LinProg, TLC, Json, IOUtils
VARIABLES n, rows, c, T, D, bas, art, ph
mvars == <<n, rows, c, T, D, bas, art, ph>>
Mode == IOEnv.LP_MODE
Wide == IOEnv.LP_MAX
R1 == IF Wide = "2" THEN -2..2 ELSE -1..1
RowSet(m) == [1..m -> R1] \X (-1..1) \X (0..2)
Objs(m) == IF m = 1 THEN {<<1>>, <<-1>>} ELSE {<<1, 0>>, <<1, 1>>, <<1, -1>>, <<-1, 2>>}
MCInit == /\ n \in (IF Mode = "gen" THEN {2} ELSE 1..2)
          /\ rows \in {<<a>> : a \in RowSet(n)} \cup {<<a, b>> : a \in RowSet(n), b \in RowSet(n)}
          /\ c \in (IF Mode = "gen" THEN {<<1, 1>>} ELSE Objs(n)) /\ T = <<>> /\ D = 1 /\ bas = <<>> /\ art = {} /\ ph = "start"
m == Len(rows)
\* rows turned to rhs >= 0; slack k only for inequalities; one artificial for every row
Sg(k) == IF rows[k][2] < 0 THEN -1 ELSE 1
W == n + m + m
TabRow(k) == [j \in 1..(W+1) |-> IF j <= n THEN Sg(k) * rows[k][1][j]
                                 ELSE IF j <= n+m THEN (IF j = n+k THEN Sg(k) * (CASE rows[k][3] = 0 -> 1 [] rows[k][3] = 1 -> -1 [] OTHER -> 0) ELSE 0)
                                 ELSE IF j <= W THEN (IF j = n+m+k THEN 1 ELSE 0) ELSE Sg(k) * rows[k][2]]
\* the last row is the objective, reduced to the basis: minus the gain of every column
Phase1Row == [j \in 1..(W+1) |-> IF j > n+m /\ j <= W THEN 0 ELSE -SumSeq(LAMBDA k : TabRow(k)[j], m)]
Start == ph = "start" /\ ph' = "one" /\ D' = 1 /\ T' = [k \in 1..(m+1) |-> IF k <= m THEN TabRow(k) ELSE Phase1Row]
         /\ bas' = [k \in 1..m |-> n+m+k] /\ art' = (n+m+1)..W /\ UNCHANGED <<n, rows, c>>
Pivoted(r, q) == [k \in 1..(m+1) |-> IF k = r THEN T[r] ELSE [j \in 1..(W+1) |-> (T[k][j] * T[r][q] - T[k][q] * T[r][j]) \div D]]
Cols == IF ph = "one" THEN 1..W ELSE (1..W) \ art
Improving == {q \in Cols : T[m+1][q] < 0}
RatioOK(r, q) == T[r][q] > 0 /\ \A k \in 1..m : T[k][q] > 0 => T[r][W+1] * T[k][q] <= T[k][W+1] * T[r][q]
Pivot == ph \in {"one", "two"} /\ \E q \in Improving, r \in 1..m :
           RatioOK(r, q) /\ T' = Pivoted(r, q) /\ D' = T[r][q] /\ bas' = [bas EXCEPT ![r] = q] /\ UNCHANGED <<n, rows, c, art, ph>>
EndOne == ph = "one" /\ Improving = {} /\ ph' = (IF T[m+1][W+1] # 0 THEN "infeasible" ELSE "drive") /\ UNCHANGED <<n, rows, c, T, D, bas, art>>
\* artificials that are still in the basis are zero: drive them out, or the row is redundant
Stuck == {r \in 1..m : bas[r] \in art /\ \E q \in 1..(n+m) : T[r][q] # 0}
Drive == ph = "drive" /\ IF Stuck = {}
         THEN /\ ph' = "two" /\ UNCHANGED <<n, rows, c, D, bas, art>>
              /\ T' = [T EXCEPT ![m+1] = [j \in 1..(W+1) |->
                   SumSeq(LAMBDA k : IF bas[k] <= n THEN c[bas[k]] * T[k][j] ELSE 0, m) - (IF j <= n THEN D * c[j] ELSE 0)]]
         ELSE \E r \in Stuck : \E q \in 1..(n+m) : T[r][q] # 0 /\ UNCHANGED <<n, rows, c, art, ph>>
              /\ LET s == IF T[r][q] < 0 THEN -1 ELSE 1  P == Pivoted(r, q) IN
                 /\ T' = [k \in 1..(m+1) |-> [j \in 1..(W+1) |-> s * P[k][j]]] /\ D' = s * T[r][q] /\ bas' = [bas EXCEPT ![r] = q]
EndTwo == ph = "two" /\ UNCHANGED <<n, rows, c, T, D, bas, art>>
          /\ IF Improving = {} THEN ph' = "optimal"
             ELSE (\E q \in Improving : \A r \in 1..m : T[r][q] <= 0) /\ ph' = "unbounded"
MCSpec == MCInit /\ [][Mode = "mc" /\ (Start \/ Pivot \/ EndOne \/ Drive \/ EndTwo)]_mvars
Point == <<D, [j \in 1..n |-> MapThenSumSet(LAMBDA k : T[k][W+1], {k \in 1..m : bas[k] = j})]>>
CornersNow == Corners(n, rows)
Basis == ph \in {"one", "two", "drive"} => (D > 0 /\ \A k \in 1..m : T[k][W+1] >= 0 /\ T[k][bas[k]] = D /\ \A r \in 1..(m+1) : r # k => T[r][bas[k]] = 0)
PhaseTwo == ph = "two" => Feasible(n, rows, Point)
Infeasible == ph = "infeasible" => CornersNow = {}
Optimal == ph = "optimal" => LET V == CornersNow IN
  V # {} /\ Feasible(n, rows, Point) /\ IsOptimum(V, c, Point) /\ ~Unbounded(Rays(n, rows), c) /\ T[m+1][W+1] = Dot(c, Point[2])
NoBound == ph = "unbounded" => CornersNow # {} /\ Unbounded(Rays(n, rows), c)
Flat(x) == x[1] \o <<x[2], x[3]>>
Emit == (Mode = "gen" /\ m = 2) => PrintT("@@" \o ToJson(<<n, m>> \o Flat(rows[1]) \o Flat(rows[2])))
=============================================================================
