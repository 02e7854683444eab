------------------------------ MODULE ConvHull ------------------------------
(* Convex hulls of points with whole coordinates, in the plane and in space. *)
(* P is a sequence of points; a hull names points by their position 1..n.    *)
EXTENDS Integers, Sequences, FiniteSets
Area2(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Vol6(a, b, c, d) ==
  (b[1] - a[1]) * ((c[2] - a[2]) * (d[3] - a[3]) - (d[2] - a[2]) * (c[3] - a[3]))
  + (b[2] - a[2]) * ((c[3] - a[3]) * (d[1] - a[1]) - (d[3] - a[3]) * (c[1] - a[1]))
  + (b[3] - a[3]) * ((c[1] - a[1]) * (d[2] - a[2]) - (d[1] - a[1]) * (c[2] - a[2]))
Places(P) == {P[i] : i \in 1..Len(P)}
Valid(P, h) == \A i \in 1..Len(h) : h[i] \in 1..Len(P)
---- \* plane
NextOf(h, i) == IF i = Len(h) THEN 1 ELSE i + 1
Flat2(S) == \A a, b, c \in S : Area2(a, b, c) = 0
Between2(a, b, s) == Area2(a, b, s) = 0 /\ (s[1] - a[1]) * (s[1] - b[1]) <= 0 /\ (s[2] - a[2]) * (s[2] - b[2]) <= 0
\* corners turn left (strictly) and no point is to the right of a side: corners
\* that are all different and lie on the left of all sides go round once
Hull2(P, h) ==
  LET S == Places(P) IN
  /\ Valid(P, h)
  /\ Cardinality({P[h[i]] : i \in 1..Len(h)}) = Len(h)
  /\ IF S = {} THEN h = <<>>
     ELSE IF Cardinality(S) = 1 THEN Len(h) = 1
     ELSE IF Flat2(S) THEN Len(h) = 2 /\ (\A s \in S : Between2(P[h[1]], P[h[2]], s))
     ELSE /\ Len(h) >= 3
          /\ \A i \in 1..Len(h) : Area2(P[h[i]], P[h[NextOf(h, i)]], P[h[NextOf(h, NextOf(h, i))]]) > 0
          /\ \A i \in 1..Len(h), s \in S : Area2(P[h[i]], P[h[NextOf(h, i)]], s) >= 0
---- \* space; a surface is a set of faces, given as a sequence of triples
Flat3(S) == \A a, b, c, d \in S : Vol6(a, b, c, d) = 0
Faces(t) == {t[i] : i \in 1..Len(t)}
DirEdges(t) == {<<i, k>> : i \in 1..Len(t), k \in 1..3}
Edge(t, x) == <<t[x[1]][x[2]], t[x[1]][IF x[2] = 3 THEN 1 ELSE x[2] + 1]>>
Cross(a, b, c) == <<(b[2] - a[2]) * (c[3] - a[3]) - (b[3] - a[3]) * (c[2] - a[2]),
                    (b[3] - a[3]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[3] - a[3]),
                    (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])>>
Closed(t) == LET E == {Edge(t, x) : x \in DirEdges(t)} IN
             Cardinality(E) = 3 * Len(t) /\ \A e \in E : <<e[2], e[1]>> \in E
Proper(P, t) == \A i \in 1..Len(t) : Cross(P[t[i][1]], P[t[i][2]], P[t[i][3]]) # <<0, 0, 0>>
AllInside(P, t) == \A i \in 1..Len(t) : \A s \in Places(P) : Vol6(P[t[i][1]], P[t[i][2]], P[t[i][3]], s) <= 0
Verts(t) == UNION {{t[i][1], t[i][2], t[i][3]} : i \in 1..Len(t)}
Hull3(P, t) ==
  /\ \A i \in 1..Len(t) : \A k \in 1..3 : t[i][k] \in 1..Len(P)
  /\ IF Flat3(Places(P)) THEN t = <<>>
     ELSE /\ Len(t) >= 4 /\ Proper(P, t) /\ Closed(t) /\ AllInside(P, t)
          /\ 2 * Cardinality(Verts(t)) - Len(t) = 4       \* one sphere
=============================================================================
