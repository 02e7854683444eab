------------------------------- MODULE LinProg -------------------------------
(* C18: linear programs  max c.x,  x >= 0,  rows a.x (<= | >= | =) b, with   *)
(* whole-number data.  A row is <<a, b, k>>, k = 0: <=, 1: >=, 2: =.  Points *)
(* are <<den, num>> with den > 0.  Everything about the program is decided   *)
(* on its vertices: the feasible region has no line because of x >= 0.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt
RECURSIVE SumSeq(_, _)
SumSeq(F(_), k) == IF k = 0 THEN 0 ELSE F(k) + SumSeq(F, k-1)
Dot(a, x) == SumSeq(LAMBDA i : a[i] * x[i], Len(a))
Unit(n, i) == [j \in 1..n |-> IF i = j THEN 1 ELSE 0]
\* determinant by expansion along the first row
Minor(m, c) == [i \in 1..(Len(m)-1) |-> [j \in 1..(Len(m)-1) |-> m[i+1][IF j < c THEN j ELSE j+1]]]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE SumSeq(LAMBDA c : IF m[1][c] = 0 THEN 0 ELSE (IF c % 2 = 1 THEN 1 ELSE -1) * m[1][c] * Det(Minor(m, c)), Len(m))
ReplCol(m, c, v) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> IF j = c THEN v[i] ELSE m[i][j]]]
Sat(row, p) == LET s == Dot(row[1], p[2])  b == row[2] * p[1] IN
               CASE row[3] = 0 -> s <= b [] row[3] = 1 -> s >= b [] OTHER -> s = b
Feasible(n, rows, p) == (\A i \in 1..n : p[2][i] >= 0) /\ (\A k \in 1..Len(rows) : Sat(rows[k], p))
\* all planes: the rows and the coordinate planes
Planes(n, rows) == [k \in 1..(Len(rows)+n) |-> IF k <= Len(rows) THEN <<rows[k][1], rows[k][2]>> ELSE <<Unit(n, k-Len(rows)), 0>>]
RECURSIVE Increasing(_, _, _)
Increasing(n, from, K) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o s : s \in Increasing(n-1, k+1, K)} : k \in from..(K-n+1)}
Meet(n, P, s) == \* the common point of the planes listed in s
  LET m == [i \in 1..n |-> P[s[i]][1]]  v == [i \in 1..n |-> P[s[i]][2]]  d == Det(m) IN
  IF d = 0 THEN <<>>
  ELSE LET sg == IF d > 0 THEN 1 ELSE -1 IN << <<sg*d, [c \in 1..n |-> sg * Det(ReplCol(m, c, v))]>> >>
Corners(n, rows) ==
  LET P == Planes(n, rows) IN
  {p \in UNION {LET q == Meet(n, P, s) IN IF q = <<>> THEN {} ELSE {q[1]} : s \in Increasing(n, 1, Len(P))} : Feasible(n, rows, p)}
\* directions in which one can go forever, scaled to coordinate sum 1
Rays(n, rows) == Corners(n, [k \in 1..Len(rows) |-> <<rows[k][1], 0, rows[k][3]>>] \o << <<[i \in 1..n |-> 1], 1, 2>> >>)
Unbounded(rays, c) == \E d \in rays : Dot(c, d[2]) > 0
\* p is at least as good as q
NotWorse(c, p, q) == Dot(c, p[2]) * q[1] >= Dot(c, q[2]) * p[1]
IsOptimum(corners, c, p) == \A q \in corners : NotWorse(c, p, q)
=============================================================================
