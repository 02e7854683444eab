------------------------------ MODULE GeoNear ------------------------------
(* Nearest points, distances and projections in exact arithmetic.  Points   *)
(* are integer tuples (two or three coordinates); a computed point is       *)
(* X / d with X an integer tuple.  The nearest point of a convex set is     *)
(* the one and only point x of the set with (p - x).(y - x) <= 0 for all y  *)
(* of the set (for a simplex: for its corners): Nearest is that test.       *)
EXTENDS Integers, Sequences, FiniteSets
Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Sum2(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Mul(k, a) == [i \in 1..Len(a) |-> k * a[i]]
Dot(a, b) == IF Len(a) = 2 THEN a[1]*b[1] + a[2]*b[2] ELSE a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Sq(a) == Dot(a, a)
Crs(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Crs2(a, b) == a[1]*b[2] - a[2]*b[1]
\* X/d lies on the segment a b, on the line through a along u, in the triangle, on the plane of the triangle
OnLine(X, d, a, u) == LET w == Sub(X, Mul(d, a)) IN \A i, j \in 1..Len(a) : w[i] * u[j] = w[j] * u[i]
InSeg(X, d, a, b) == LET u == Sub(b, a)  w == Sub(X, Mul(d, a)) IN
  /\ OnLine(X, d, a, u) /\ (IF Sq(u) = 0 THEN Sq(w) = 0 ELSE Dot(w, u) >= 0 /\ Dot(w, u) <= d * Sq(u))
Nrm(q) == Crs(Sub(q[2], q[1]), Sub(q[3], q[1]))
OnPlane(X, d, q) == Dot(Nrm(q), Sub(X, Mul(d, q[1]))) = 0
Side(X, d, a, b, N) == Dot(Crs(Sub(b, a), Sub(X, Mul(d, a))), N)
InTri(X, d, q) == IF Sq(Nrm(q)) = 0 THEN InSeg(X, d, q[1], q[2]) \/ InSeg(X, d, q[2], q[3]) \/ InSeg(X, d, q[3], q[1])
  ELSE /\ OnPlane(X, d, q)
       /\ \A k \in 1..3 : Side(X, d, q[k], q[1 + (k % 3)], Nrm(q)) >= 0
InQuad(X, d, q) == InTri(X, d, <<q[1], q[2], q[3]>>) \/ InTri(X, d, <<q[1], q[3], q[4]>>)
InHull(X, d, q) == CASE Len(q) = 1 -> X = Mul(d, q[1])
                     [] Len(q) = 2 -> InSeg(X, d, q[1], q[2])
                     [] Len(q) = 3 -> InTri(X, d, q)
                     [] OTHER -> InQuad(X, d, q)
Variational(p, X, d, q) == LET g == Sub(Mul(d, p), X) IN \A i \in 1..Len(q) : Dot(g, Sub(Mul(d, q[i]), X)) <= 0
Nearest(p, X, d, q) == d > 0 /\ InHull(X, d, q) /\ Variational(p, X, d, q)
\* the nearest point of the line through a along u; the foot on the plane of a triangle
FootLine(p, X, d, a, u) == d > 0 /\ OnLine(X, d, a, u) /\ Dot(Sub(Mul(d, p), X), u) = 0
FootPlane(p, X, d, a, N) == /\ d > 0 /\ Dot(N, Sub(X, Mul(d, a))) = 0 /\ Crs(Sub(Mul(d, p), X), N) = <<0, 0, 0>>
\* weights W/e of the corners give X/d
RECURSIVE Comb(_, _)
Comb(W, q) == IF Len(q) = 1 THEN Mul(W[1], q[1]) ELSE Sum2(Mul(W[1], q[1]), Comb(Tail(W), Tail(q)))
RECURSIVE Tot(_)
Tot(W) == IF Len(W) = 0 THEN 0 ELSE W[1] + Tot(Tail(W))
Weights(W, e, q, X, d) == e > 0 /\ Len(W) = Len(q) /\ Tot(W) = e /\ Mul(d, Comb(W, q)) = Mul(e, X)
InUnit(W) == \A i \in 1..Len(W) : W[i] >= 0
\* squared distance to a segment as <<numerator, denominator>>
Dist2Seg(p, a, b) ==
  LET u == Sub(b, a)  n == Sq(u)  t == Dot(Sub(p, a), u) IN
  IF n = 0 \/ t <= 0 THEN <<Sq(Sub(p, a)), 1>>
  ELSE IF t >= n THEN <<Sq(Sub(p, b)), 1>> ELSE <<Sq(Sub(p, a)) * n - t * t, n>>
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
Eq(x, y) == x[1] * y[2] = y[1] * x[2]
\* two segments of the plane
Turn(a, b, c) == Crs2(Sub(b, a), Sub(c, a))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Cross(a, b, c, d) == LET s1 == Sgn(Turn(a, b, c)) s2 == Sgn(Turn(a, b, d)) s3 == Sgn(Turn(c, d, a)) s4 == Sgn(Turn(c, d, b)) IN
  \/ s1 * s2 <= 0 /\ s3 * s4 <= 0 /\ ~(s1 = 0 /\ s2 = 0)
  \/ InSeg(a, 1, c, d) \/ InSeg(b, 1, c, d) \/ InSeg(c, 1, a, b) \/ InSeg(d, 1, a, b)
Proper(a, b, c, d) == Sgn(Turn(a, b, c)) * Sgn(Turn(a, b, d)) = -1 /\ Sgn(Turn(c, d, a)) * Sgn(Turn(c, d, b)) = -1
MinOf(S) == CHOOSE x \in S : \A y \in S : Leq(x, y)
Dist2SegSeg2(a, b, c, d) == IF Cross(a, b, c, d) THEN <<0, 1>>
  ELSE MinOf({Dist2Seg(a, c, d), Dist2Seg(b, c, d), Dist2Seg(c, a, b), Dist2Seg(d, a, b)})
\* number of times a closed polyline (first point = last point) turns around q, by counting crossings of the half line to the right of q
RECURSIVE WindTo(_, _, _)
WindTo(P, q, k) == IF k >= Len(P) THEN 0 ELSE
  LET a == P[k]  b == P[k+1] IN WindTo(P, q, k+1) +
    (IF a[2] <= q[2] /\ b[2] > q[2] /\ Turn(a, b, q) > 0 THEN 1
     ELSE IF a[2] > q[2] /\ b[2] <= q[2] /\ Turn(a, b, q) < 0 THEN -1 ELSE 0)
Winding(P, q) == WindTo(P, q, 1)
OnPolyline(P, q) == \E k \in 1..(Len(P)-1) : InSeg(q, 1, P[k], P[k+1])
RECURSIVE Shoelace(_, _)
Shoelace(P, k) == IF k >= Len(P) THEN 0 ELSE Crs2(P[k], P[k+1]) + Shoelace(P, k+1)
\* polylines with edges along the axes: lengths are integers
LenAx(a, b) == LET u == Sub(b, a) IN IF u[1] = 0 THEN (IF u[2] < 0 THEN -u[2] ELSE u[2]) ELSE (IF u[1] < 0 THEN -u[1] ELSE u[1])
RECURSIVE LenTo(_, _)
LenTo(P, k) == IF k <= 1 THEN 0 ELSE LenTo(P, k-1) + LenAx(P[k-1], P[k])
AlongAxes(P) == \A k \in 1..(Len(P)-1) : P[k][1] = P[k+1][1] \/ P[k][2] = P[k+1][2]
\* X/d is the point at length m/h of an axis-parallel polyline
AtLength(P, m, h, X, d) == \E k \in 1..(Len(P)-1) : LET L == LenTo(P, k)  n == LenAx(P[k], P[k+1]) IN
   n > 0 /\ h * L <= m /\ m <= h * (L + n) /\ Mul(h * n, X) = Mul(d, Sum2(Mul(h * n, P[k]), Mul(m - h * L, Sub(P[k+1], P[k]))))
=============================================================================
