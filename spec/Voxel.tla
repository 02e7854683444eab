-------------------------------- MODULE Voxel --------------------------------
(* C09 design: a grid of nx*ny*nz cells, some of them filled; a cell outside *)
(* the grid reads as empty.  Cell values are 0 and 1.                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Cells(d) == (0..(d[1]-1)) \X (0..(d[2]-1)) \X (0..(d[3]-1))
\* x runs fastest
Idx(d, c) == c[3]*d[2]*d[1] + c[2]*d[1] + c[1]
CellOf(d, i) == <<i % d[1], (i \div d[1]) % d[2], i \div (d[1]*d[2])>>
Dirs == << <<-1,0,0>>, <<1,0,0>>, <<0,-1,0>>, <<0,1,0>>, <<0,0,-1>>, <<0,0,1>> >>   \* in the order of the sides
Add(c, v) == <<c[1]+v[1], c[2]+v[2], c[3]+v[3]>>
Nb6(c) == {Add(c, Dirs[k]) : k \in 1..6}
SetCell(d, S, c, v) == IF c \notin Cells(d) THEN S ELSE IF v = 1 THEN S \cup {c} ELSE S \ {c}
Grow(d, S) == {c \in Cells(d) : c \in S \/ Nb6(c) \cap S # {}}
Shrink(d, S) == {c \in S : Nb6(c) \subseteq S}
\* sides between a filled and an empty cell: <<cell, outward direction>>
Sides(S) == {<<c, Dirs[k]>> : c \in S, k \in 1..6} 
Bnd(S) == {s \in Sides(S) : Add(s[1], s[2]) \notin S}
\* the four corners of a side, counter-clockwise seen from outside, from any start
Cross(a, b) == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>
Sub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Det3(a, b, c) == Dot(Cross(a, b), c)
\* side of a quad with corners p: <<inner cell, direction>>, or <<>> if it is no unit square of the lattice
QuadSide(p) ==
  LET a == Sub(p[2], p[1])  b == Sub(p[3], p[2])  n == Cross(a, b) IN
  IF Dot(a, a) = 1 /\ Dot(b, b) = 1 /\ Dot(n, n) = 1 /\ Add(p[1], b) = p[4]
  THEN LET lo == <<Min({p[1][1], p[2][1], p[3][1]}), Min({p[1][2], p[2][2], p[3][2]}), Min({p[1][3], p[2][3], p[3][3]})>>
       IN <<(IF n[1]+n[2]+n[3] = 1 THEN Sub(lo, n) ELSE lo), n>>
  ELSE <<>>
\* the standard square of a side (for the design check)
SideQuad(s) ==
  LET c == s[1]  n == s[2]  k == CHOOSE i \in 1..3 : n[i] # 0
      e(i) == [j \in 1..3 |-> IF j = i THEN 1 ELSE 0]
      u == e((k % 3) + 1)  v == e(((k+1) % 3) + 1)
      o == IF n[k] = 1 THEN Add(c, n) ELSE c
  IN IF n[k] = 1 THEN <<o, Add(o, u), Add(Add(o, u), v), Add(o, v)>> ELSE <<o, Add(o, v), Add(Add(o, u), v), Add(o, u)>>
QEdges(q) == {<<q[i], q[(i % 4) + 1]>> : i \in 1..4}

\* shortest distance from weighted seeds over steps of length el between neighbouring filled cells; -1: unreachable
RECURSIVE Relax(_, _, _)
Relax(S, D, el) ==
  LET E == [c \in DOMAIN D |-> LET N == {D[x] + el : x \in {y \in Nb6(c) : y \in DOMAIN D /\ D[y] >= 0}} IN
                       IF c \notin S \/ N = {} THEN D[c] ELSE IF D[c] < 0 THEN Min(N) ELSE Min(N \cup {D[c]})]
  IN IF E = D THEN D ELSE Relax(S, E, el)
Geo(d, S, seeds, el) == Relax(S, [c \in Cells(d) |-> LET W == {seeds[i][2] : i \in {j \in 1..Len(seeds) : seeds[j][1] = Idx(d, c)}} IN IF W = {} THEN -1 ELSE Min(W)], el)

\* segment from p to q, coordinates in units of 1/k cell.  A rational is <<num, den>>, den > 0.
Less(a, b) == a[1]*b[2] < b[1]*a[2]
Leq(a, b) == a[1]*b[2] <= b[1]*a[2]
Rat(n, m) == IF m > 0 THEN <<n, m>> ELSE <<-n, -m>>
\* parameters at which the segment enters and leaves the slab of cell number i on one axis (m # 0)
Ent(i, p, m, k) == IF m > 0 THEN Rat(i*k - p, m) ELSE Rat((i+1)*k - p, m)
Lea(i, p, m, k) == IF m > 0 THEN Rat((i+1)*k - p, m) ELSE Rat(i*k - p, m)
Ax(p, q) == {a \in 1..3 : p[a] # q[a]}
FlatIn(c, p, q, k) == \A a \in 1..3 \ Ax(p, q) : c[a]*k <= p[a] /\ p[a] < (c[a]+1)*k
FlatTouch(c, p, q, k) == \A a \in 1..3 \ Ax(p, q) : c[a]*k <= p[a] /\ p[a] <= (c[a]+1)*k
Lo(c, p, q, k) == {Ent(c[a], p[a], q[a]-p[a], k) : a \in Ax(p, q)} \cup {<<0, 1>>}
Hi(c, p, q, k) == {Lea(c[a], p[a], q[a]-p[a], k) : a \in Ax(p, q)} \cup {<<1, 1>>}
\* the segment runs through the inside of the cell / touches the closed cell
Through(c, p, q, k) == FlatIn(c, p, q, k) /\ \A a \in Lo(c, p, q, k) : \A b \in Hi(c, p, q, k) : Less(a, b)
Touch(c, p, q, k) == FlatTouch(c, p, q, k) /\ \A a \in Lo(c, p, q, k) : \A b \in Hi(c, p, q, k) : Leq(a, b)
\* middle of the part inside, for the order: compare entry parameters
EntT(c, p, q, k) == CHOOSE a \in Lo(c, p, q, k) : \A b \in Lo(c, p, q, k) : Leq(b, a)
=============================================================================
