------------------------------ MODULE Separate ------------------------------
(* Two convex hulls of points with whole coordinates: apart, touching or     *)
(* overlapping, decided by projection on the finitely many directions that   *)
(* can carry a side of the difference body; and the smallest shift of the    *)
(* second that ends the overlap.  Also segments, triangles, boxes, balls.    *)
EXTENDS Integers, Sequences, FiniteSets
Dot(a, b) == IF Len(a) = 2 THEN a[1] * b[1] + a[2] * b[2] ELSE a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Add(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Neg(a) == [i \in 1..Len(a) |-> -a[i]]
Zero(a) == \A i \in 1..Len(a) : a[i] = 0
Perp(a) == <<a[2], -a[1]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Det(a, b, c) == Dot(a, Cross(b, c))
Mx(S) == CHOOSE x \in S : \A y \in S : y <= x
Mn(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x
\* how far the second has to go along n until nothing overlaps in that direction (times |n|)
Depth(S, T, n) == Mx({Dot(s, n) : s \in S}) - Mn({Dot(t, n) : t \in T})
Edges(S) == {Sub(a, b) : a, b \in S}
Both(D) == {d \in D \cup {Neg(d) : d \in D} : ~Zero(d)}
Axes2(S, T) == Both({Perp(e) : e \in Edges(S) \cup Edges(T)})
\* directions that matter only when everything is on one line
Flat2Axes(S, T) == Both(Edges(S \cup T))
\* edges up to sign
RECURSIVE Half(_)
Half(D) == IF D = {} THEN {} ELSE LET d == CHOOSE d \in D : TRUE IN IF Zero(d) THEN Half(D \ {d}) ELSE {d} \cup Half(D \ {d, Neg(d)})
Axes3(S, T) == LET ES == Half(Edges(S)) ET == Half(Edges(T)) IN
               Both({Cross(e, f) : e \in ES, f \in ES} \cup {Cross(e, f) : e \in ET, f \in ET} \cup {Cross(e, f) : e \in ES, f \in ET})
Solid3(S, T) == LET D == Half(Edges(S)) \cup Half(Edges(T)) IN \E a, b \in D : LET n == Cross(a, b) IN ~Zero(n) /\ \E c \in D : Dot(n, c) # 0
Solid2(S, T) == LET D == Edges(S) \cup Edges(T) IN \E a, b \in D : Dot(Perp(a), b) # 0
Measures(S, T, A) == {<<n, Depth(S, T, n)>> : n \in A}
Verdict(M) == IF \E m \in M : m[2] < 0 THEN "apart" ELSE IF \E m \in M : m[2] = 0 THEN "touch" ELSE "overlap"
\* the directions of smallest depth: depth^2 / |n|^2 smallest
Smallest(M) == {m \in M : \A k \in M : m[2] * m[2] * Dot(k[1], k[1]) <= k[2] * k[2] * Dot(m[1], m[1])}
---- \* answers
Same(v, r) == (v = "apart" => r = 0) /\ (v = "overlap" => r = 1)
Exact(v, r) == (v = "apart") = (r = 0)
\* p (in 1/u) is a smallest shift within tol/u
IsShift(M, p, u, tol) == \E m \in Smallest(M) : LET q == Dot(m[1], m[1]) IN
     \A i \in 1..Len(p) : Abs(p[i] * q - u * m[1][i] * m[2]) <= tol * q
---- \* segments and triangles are hulls of two and three points
Seg2Meet(a, b, c, d) == Verdict(Measures({a, b}, {c, d}, Axes2({a, b}, {c, d}) \cup Flat2Axes({a, b}, {c, d}))) # "apart"
BoxPts(mn, mx) == {<<x, y>> : x \in {mn[1], mx[1]}, y \in {mn[2], mx[2]}}
BoxSegMeet(mn, mx, a, b) == LET S == BoxPts(mn, mx) T == {a, b} IN Verdict(Measures(S, T, Axes2(S, T) \cup Flat2Axes(S, T))) # "apart"
TriPair(S, T) == IF ~Solid3(S, T) THEN "free" ELSE LET v == Verdict(Measures(S, T, Axes3(S, T))) IN IF v = "touch" THEN "free" ELSE v
---- \* a half-line o + t d, t >= 0, against triangle abc: yes, no, or on the rim
RayTri(o, d, a, b, c) ==
  LET n == Cross(Sub(b, a), Sub(c, a))
      nd == Dot(n, d)
      s == IF nd > 0 THEN 1 ELSE -1
      h == s * Dot(n, Sub(a, o))                 \* parameter has the sign of h
      v0 == s * Det(d, Sub(b, o), Sub(c, o))
      v1 == s * Det(d, Sub(c, o), Sub(a, o))
      v2 == s * Det(d, Sub(a, o), Sub(b, o))
  IN IF nd = 0 THEN (IF Dot(n, Sub(a, o)) = 0 THEN "free" ELSE "no")
     ELSE IF h < 0 \/ v0 < 0 \/ v1 < 0 \/ v2 < 0 THEN "no"
     ELSE IF h > 0 /\ v0 > 0 /\ v1 > 0 /\ v2 > 0 THEN "yes" ELSE "free"
Is3(v, r) == (v = "yes" => r = 1) /\ (v = "no" => r = 0)
---- \* boxes
InPadded(P, d) == \A k \in 1..Len(P[1]) : (\E i \in 1..Len(P) : P[i][k] <= d) /\ (\E i \in 1..Len(P) : P[i][k] >= -d)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
DistBox2(mn, mx, c) == LET w == [k \in 1..Len(c) |-> c[k] - Clamp(c[k], mn[k], mx[k])] IN Dot(w, w)
=============================================================================
