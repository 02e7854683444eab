------------------------------- MODULE Index -------------------------------
(* C12: spatial indices against looking at everything.                       *)
EXTENDS Bvh
\* k-d tree over a sequence of points, by descending coordinate of the axis of
\* the depth, ties in any fixed order; the node keeps the median
RECURSIVE SortDesc(_, _)
SortDesc(s, a) == IF Len(s) <= 1 THEN s ELSE
  LET i == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i][a] >= s[j][a]
  IN <<s[i]>> \o SortDesc(SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s)), a)
RECURSIVE Kd(_, _, _)
Kd(s, dep, dim) == IF s = <<>> THEN <<>> ELSE
  LET t == SortDesc(s, ((dep % dim) + 1))  m == (Len(s) \div 2) + 1 IN
  <<t[m], Kd(SubSeq(t, 1, m-1), dep+1, dim), Kd(SubSeq(t, m+1, Len(t)), dep+1, dim)>>
Dq(p, q) == MapThenSumSet(LAMBDA i : (p[i]-q[i])*(p[i]-q[i]), DOMAIN p)
RECURSIVE KdNear(_, _, _, _, _)
KdNear(T, q, dep, dim, best) == IF T = <<>> THEN best ELSE
  LET a == ((dep % dim) + 1)  d == q[a] - T[1][a]
      b0 == IF Dq(T[1], q) < best THEN Dq(T[1], q) ELSE best
      b1 == KdNear(IF d > 0 THEN T[2] ELSE T[3], q, dep+1, dim, b0)
  IN IF d*d < b1 THEN KdNear(IF d > 0 THEN T[3] ELSE T[2], q, dep+1, dim, b1) ELSE b1
\* uniform grid: clamped cell of a position, cells numbered with x fastest
Clamp(x, m) == IF x < 0 THEN 0 ELSE IF x >= m THEN m-1 ELSE x
CellsAlong(lo, hi, h) == LET c == (hi - lo + h - 1) \div h IN IF c < 1 THEN 1 ELSE c
CellAt(p, lo, hi, h) == [a \in 1..3 |-> Clamp((p[a]-lo[a]) \div h, CellsAlong(lo[a], hi[a], h))]
CellIx(c, lo, hi, h) == c[1] + CellsAlong(lo[1], hi[1], h) * (c[2] + CellsAlong(lo[2], hi[2], h) * c[3])
Ring(c, d) == \A a \in 1..3 : c[a] - d[a] \in -1..1
=============================================================================
