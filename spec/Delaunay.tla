------------------------------ MODULE Delaunay ------------------------------
(* C03 design: a triangulation of a fixed region grows by inserted points;   *)
(* edges that violate the circumcircle condition are flipped until none is   *)
(* left; afterwards an edge can be forced by flipping the convex             *)
(* quadrilaterals across the segment.  Faces are triples of point indices.   *)
EXTENDS Geo2, TLC

\* rotate so that the smallest index comes first
Norm(t) == LET m == Min2(t[1], Min2(t[2], t[3])) IN
           IF t[1] = m THEN t ELSE IF t[2] = m THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
DEd(F) == UNION {TriSegs(t) : t \in F}
Opp(t, s) == CHOOSE v \in {t[1], t[2], t[3]} : v \notin {s[1], s[2]}
FaceAt(F, s) == CHOOSE t \in F : s \in TriSegs(t)
Inner(F) == LET D == DEd(F) IN {s \in D : s[1] < s[2] /\ <<s[2], s[1]>> \in D}
Rim(F) == LET D == DEd(F) IN {s \in D : <<s[2], s[1]>> \notin D}
\* the two corners facing an interior edge s = <<a, b>>: c is left of it, d right of it
Left(F, s) == Opp(FaceAt(F, s), s)
Right(F, s) == Opp(FaceAt(F, <<s[2], s[1]>>), s)
Legal(F, xy, s) == InCircle(xy[s[1]+1], xy[s[2]+1], xy[Left(F, s)+1], xy[Right(F, s)+1]) <= 0
IsDelaunay(F, xy) == \A s \in Inner(F) : Legal(F, xy, s)
Convex(F, xy, s) == LET a == s[1]  b == s[2]  c == Left(F, s)  d == Right(F, s) IN
   /\ Orient(xy[c+1], xy[a+1], xy[d+1]) > 0 /\ Orient(xy[d+1], xy[b+1], xy[c+1]) > 0
Flipped(F, s) == LET a == s[1]  b == s[2]  c == Left(F, s)  d == Right(F, s) IN
   (F \ {FaceAt(F, s), FaceAt(F, <<b, a>>)}) \cup {Norm(<<a, d, c>>), Norm(<<d, b, c>>)}
\* where a point lies
HoldersOf(F, xy, q) == {t \in F : /\ Orient(xy[t[1]+1], xy[t[2]+1], q) >= 0 /\ Orient(xy[t[2]+1], xy[t[3]+1], q) >= 0
                                  /\ Orient(xy[t[3]+1], xy[t[1]+1], q) >= 0}
CarrierOf(F, xy, t, q) == {s \in TriSegs(t) : Orient(xy[s[1]+1], xy[s[2]+1], q) = 0}
OnRim(F, xy, q) == \E s \in Rim(F) : OnSeg(xy[s[1]+1], xy[s[2]+1], q)
\* faces after putting point v (coordinates q) in
Inserted(F, xy, v, q) ==
  LET H == HoldersOf(F, xy, q) IN
  (F \ H) \cup UNION {{Norm(<<v, s[1], s[2]>>) : s \in {e \in TriSegs(t) : Orient(xy[e[1]+1], xy[e[2]+1], q) > 0}} : t \in H}
Crossing(F, xy, a, b) == {s \in Inner(F) : ProperCross(xy[s[1]+1], xy[s[2]+1], xy[a+1], xy[b+1])}
HasEdge(F, a, b) == <<a, b>> \in DEd(F) \/ <<b, a>> \in DEd(F)
ClearSeg(F, xy, a, b) == \A t \in F : \A k \in 1..3 : t[k] \notin {a, b} => ~OnSeg(xy[a+1], xy[b+1], xy[t[k]+1])
=============================================================================
