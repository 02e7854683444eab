-------------------------------- MODULE Geo2 --------------------------------
(* Exact integer plane geometry shared by the specifications of the mesher, *)
(* the CAD sketch, hulls and intersection tests.  Points are <<x, y>>.      *)
EXTENDS Integers, Sequences, FiniteSets

Orient(a, b, c) == (b[1]-a[1])*(c[2]-a[2]) - (b[2]-a[2])*(c[1]-a[1])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
OnSeg(a, b, p) == /\ Orient(a, b, p) = 0
                  /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1])
                  /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])
ProperCross(a, b, c, d) == /\ Sgn(Orient(a, b, c)) * Sgn(Orient(a, b, d)) < 0
                           /\ Sgn(Orient(c, d, a)) * Sgn(Orient(c, d, b)) < 0
SegMeet(a, b, c, d) == \/ ProperCross(a, b, c, d)
                       \/ OnSeg(a, b, c) \/ OnSeg(a, b, d) \/ OnSeg(c, d, a) \/ OnSeg(c, d, b)
Dist2(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])

\* in-circle determinant: positive iff d is strictly inside the circle of ccw a, b, c
InCircle(a, b, c, d) ==
  LET ax == a[1]-d[1]  ay == a[2]-d[2]
      bx == b[1]-d[1]  by == b[2]-d[2]
      cx == c[1]-d[1]  cy == c[2]-d[2]
  IN (ax*ax + ay*ay) * (bx*cy - cx*by) - (bx*bx + by*by) * (ax*cy - cx*ay) + (cx*cx + cy*cy) * (ax*by - bx*ay)

Nxt(P, i) == P[(i % Len(P)) + 1]
RECURSIVE Area2From(_, _)
Area2From(P, i) == IF i > Len(P) THEN 0
                   ELSE P[i][1]*Nxt(P, i)[2] - Nxt(P, i)[1]*P[i][2] + Area2From(P, i+1)
Area2(P) == Area2From(P, 1)       \* twice the signed area

OnLoop(P, q) == \E i \in 1..Len(P) : OnSeg(P[i], Nxt(P, i), q)
\* crossing parity of a ray to +x, half-open rule; q not on the loop
InsideLoop(P, q) ==
  Cardinality({i \in 1..Len(P) :
     LET a == P[i]  b == Nxt(P, i) IN
     /\ (a[2] > q[2]) # (b[2] > q[2])
     /\ IF b[2] > a[2] THEN Orient(a, b, q) > 0 ELSE Orient(a, b, q) < 0}) % 2 = 1

SimpleLoop(P) ==
  /\ Len(P) >= 3
  /\ \A i, j \in 1..Len(P) : i < j =>
       /\ P[i] # P[j]
       /\ IF j = i + 1 THEN ~OnSeg(P[i], P[j], Nxt(P, j)) /\ ~OnSeg(P[j], Nxt(P, j), P[i])
          ELSE IF i = 1 /\ j = Len(P) THEN ~OnSeg(P[j], P[1], P[2]) /\ ~OnSeg(P[1], P[2], P[j])
          ELSE ~SegMeet(P[i], Nxt(P, i), P[j], Nxt(P, j))
LoopsMeet(P, Q) == \E i \in 1..Len(P), j \in 1..Len(Q) : SegMeet(P[i], Nxt(P, i), Q[j], Nxt(Q, j))
LoopsCross(P, Q) == \E i \in 1..Len(P), j \in 1..Len(Q) : ProperCross(P[i], Nxt(P, i), Q[j], Nxt(Q, j))
SelfCross(P) == \E i, j \in 1..Len(P) : i < j /\ ProperCross(P[i], Nxt(P, i), P[j], Nxt(P, j))

\* an outline with holes: L[1] outside, the others disjoint holes strictly inside
ValidRegion(L) ==
  /\ \A k \in 1..Len(L) : SimpleLoop(L[k])
  /\ \A k \in 2..Len(L) : ~LoopsMeet(L[1], L[k]) /\ InsideLoop(L[1], L[k][1])
  /\ \A j, k \in 2..Len(L) : j < k => ~LoopsMeet(L[j], L[k]) /\ ~InsideLoop(L[j], L[k][1]) /\ ~InsideLoop(L[k], L[j][1])
\* inputs that must be refused whatever convention is used for touching
InvalidRegion(L) ==
  \/ \E k \in 1..Len(L) : Len(L[k]) < 3
  \/ \E k \in 1..Len(L) : SelfCross(L[k])
  \/ \E j, k \in 1..Len(L) : j < k /\ LoopsCross(L[j], L[k])
  \/ \E k \in 2..Len(L) : \E i \in 1..Len(L[k]) : ~OnLoop(L[1], L[k][i]) /\ ~InsideLoop(L[1], L[k][i])
  \/ \E k \in 2..Len(L), j \in 1..Len(L) : j # k /\ \E i \in 1..Len(L[j]) : ~OnLoop(L[k], L[j][i]) /\ InsideLoop(L[k], L[j][i])

\* directed segments of a loop of point indices
LoopSegs(I) == {<<I[i], Nxt(I, i)>> : i \in 1..Len(I)}
TriSegs(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
AllSegs(T) == UNION {TriSegs(T[i]) : i \in 1..Len(T)}
\* faces cover exactly the region to the left of the loops: no face is inverted or empty, no
\* directed edge occurs twice and the unmatched edges are exactly the loops.  The number of faces over a point
\* is then the winding number of the loops around it.
Covers(T, xy, L) ==
  /\ \A i \in 1..Len(T) : Orient(xy[T[i][1]+1], xy[T[i][2]+1], xy[T[i][3]+1]) > 0
  /\ Cardinality(AllSegs(T)) = 3 * Len(T)
  /\ LET D == AllSegs(T) IN {s \in D : <<s[2], s[1]>> \notin D} = UNION {LoopSegs(L[k]) : k \in 1..Len(L)}
=============================================================================
