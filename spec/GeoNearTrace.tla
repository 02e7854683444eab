--------------------------- MODULE GeoNearTrace ---------------------------
(* Recorded nearest points, distances and projections.  A point is x/d,     *)
(* weights are w/e; d = 0 or e = 0: the recorder found no fraction, so the  *)
(* value is not the exact one.  PL is the polyline being asked.             *)
EXTENDS GeoNear, TraceBase
VARIABLES l, PL
tvars == <<l, PL>>
Near0(e) ==
  /\ Chk("fraction", e.d > 0 /\ e.e > 0)
  /\ Chk("in the set", InHull(e.x, e.d, e.v))
  /\ Chk("nearest", Variational(e.p, e.x, e.d, e.v))
  /\ Chk("weights", Len(e.w) = 0 \/ (Weights(e.w, e.e, e.v, e.x, e.d) /\ InUnit(e.w)))
  /\ Chk("distance", e.g = -1 \/ e.g = Sq(Sub(Mul(e.d, e.p), e.x)))
Foot0(e) ==
  /\ Chk("fraction", e.d > 0 /\ e.e > 0)
  /\ Chk("foot", IF e.k = "line" THEN FootLine(e.p, e.x, e.d, e.a, e.u) ELSE FootPlane(e.p, e.x, e.d, e.a, e.u))
  /\ Chk("weights", Len(e.w) = 0 \/ Weights(e.w, e.e, e.v, e.x, e.d))
\* the weights give the foot on the plane, g is the squared distance to it times |N|^2
Face0(e) == LET N == Nrm(e.v)  h == Dot(N, Sub(e.p, e.v[1])) IN
  /\ Chk("fraction", e.e > 0)
  /\ Chk("weights", Tot(e.w) = e.e /\ FootPlane(e.p, Comb(e.w, e.v), e.e, e.v[1], N))
  /\ Chk("distance", e.g = h * h)
Inside0(e) == Chk("inside", (e.r = 1) = InTri(e.x, e.d, e.v))
Edge0(e) ==
  LET G == Sub(e.y, e.x) IN
  /\ Chk("fraction", e.d > 0)
  /\ Chk("on edge and line", InSeg(e.x, e.d, e.v[1], e.v[2]) /\ OnLine(e.y, e.d, e.a, e.u))
  /\ Chk("foot on line", Dot(G, e.u) = 0)
  /\ Chk("nearest", \A i \in 1..2 : Dot(G, Sub(Mul(e.d, e.v[i]), e.x)) <= 0)
Lines0(e) ==
  LET N == Crs(e.u, e.v)  G == Sub(e.y, e.x) IN
  /\ Chk("determinant", e.s = Sq(N))
  /\ (IF Sq(N) = 0 THEN TRUE ELSE
       /\ Chk("on the lines", OnLine(e.x, e.s, e.a, e.u) /\ OnLine(e.y, e.s, e.b, e.v))
       /\ Chk("common perpendicular", Dot(G, e.u) = 0 /\ Dot(G, e.v) = 0)
       /\ Chk("parameters", Len(e.t) = 0 \/ (e.x = Sum2(Mul(e.s, e.a), Mul(e.t[1], e.u)) /\ e.y = Sum2(Mul(e.s, e.b), Mul(e.t[2], e.v)))))
EE0(e) ==
  LET a == e.v[1] c == e.v[3]  u == Sub(e.v[2], a)  v == Sub(e.v[4], c)  N == Crs(u, v)  w == Sub(c, a)
      X == Sum2(Mul(e.d, a), Mul(e.ra, u))  Y == Sum2(Mul(e.d, c), Mul(e.rb, v))  G == Sub(Y, X)
      t(p) == Dot(Sub(p, a), u)
      lo == IF t(c) < t(e.v[4]) THEN t(c) ELSE t(e.v[4])  hi == IF t(c) < t(e.v[4]) THEN t(e.v[4]) ELSE t(c)
      overlap == lo <= Sq(u) /\ hi >= 0
      in01(r) == r >= 0 /\ r <= e.d
  IN /\ Chk("fraction", e.d > 0)
     /\ Chk("perpendicular", Dot(G, u) = 0 /\ Dot(G, v) = 0)
     /\ Chk("distance", e.g = IF Sq(N) # 0 THEN Dot(w, N) * Dot(w, N) ELSE Sq(Crs(u, w)))
     /\ Chk("overlap", Sq(N) # 0 \/ ~overlap \/ (in01(e.ra) /\ in01(e.rb)))
\* contact: the nearest points of the two lines lie within both edges and at most h/6 apart
Touch0(e) ==
  LET a == e.v[1] c == e.v[3]  u == Sub(e.v[2], a)  v == Sub(e.v[4], c)  N == Crs(u, v)  w == Sub(c, a)  n == Sq(N)
      shared == {e.n[1], e.n[2]} \cap {e.n[3], e.n[4]} # {}
      \* parameters times n
      pa == Dot(Crs(w, v), N)  pb == Dot(Crs(w, u), N)
      dd == IF n # 0 THEN <<Dot(w, N) * Dot(w, N), n>> ELSE <<Sq(Crs(u, w)), Sq(u)>>
      tie == 36 * dd[1] = e.h * e.h * dd[2]
      close == 36 * dd[1] < e.h * e.h * dd[2]
      t(p) == Dot(Sub(p, a), u)
      lo == IF t(c) < t(e.v[4]) THEN t(c) ELSE t(e.v[4])  hi == IF t(c) < t(e.v[4]) THEN t(e.v[4]) ELSE t(c)
      inside == IF n # 0 THEN pa > 0 /\ pa < n /\ pb > 0 /\ pb < n ELSE lo < Sq(u) /\ hi > 0
      outside == IF n # 0 THEN pa < 0 \/ pa > n \/ pb < 0 \/ pb > n ELSE lo > Sq(u) \/ hi < 0
  IN Chk("contact", IF shared \/ outside THEN e.r = 0
                    ELSE IF tie \/ ~inside THEN (close \/ tie) \/ e.r = 0
                    ELSE (e.r = 1) = close)
EE20(e) ==
  LET x == Dist2SegSeg2(e.v[1], e.v[2], e.v[3], e.v[4]) IN
  /\ Chk("fraction", e.d > 0)
  \* minus one stands for crossing; edges that only touch may be given as distance 0, for the real coordinates are rounded
  /\ Chk("crossing", IF x[1] # 0 THEN e.m = 0 ELSE (e.m = 1 \/ ~Proper(e.v[1], e.v[2], e.v[3], e.v[4])))
  /\ Chk("distance", e.m = 1 \/ Eq(<<e.x, e.d>>, x))
Cut0(e) ==
  /\ Chk("fraction", e.d > 0 /\ e.e > 0)
  /\ Chk("on plane and line", Dot(e.n, Sub(e.x, Mul(e.d, e.a))) = 0 /\ OnLine(e.x, e.d, e.s, e.u))
  /\ Chk("weights", Len(e.w) = 0 \/ Weights(e.w, e.e, e.v, e.x, e.d))
  /\ Chk("hit", Len(e.w) = 0 \/ ((e.h = 1) = (\A i \in 1..3 : e.w[i] > 0)))
\* the two parameters of a parallelogram, at its corners 1, 2 and 4, lie between 0 and 1 and give the point
AtQuad(W, n, q, X, d) == Weights(W, n, q, X, d) /\ W[2] >= 0 /\ W[2] <= n /\ W[3] >= 0 /\ W[3] <= n
QuadAt0(e) == Chk("quad parameters", e.d > 0 /\ AtQuad(e.w, e.e, e.v, e.x, e.d))
\* the line through s along u meets the plane of the quad at s + (m/n) u
QuadRay0(e) ==
  LET N == Crs(Sub(e.v[2], e.v[1]), Sub(e.v[4], e.v[1]))  n == Dot(N, e.u)  m == Dot(N, Sub(e.v[1], e.s))
      X == IF n > 0 THEN Sum2(Mul(n, e.s), Mul(m, e.u)) ELSE Sum2(Mul(-n, e.s), Mul(-m, e.u))
      D == IF n > 0 THEN n ELSE -n
      hit == InQuad(X, D, e.v)
  IN /\ Chk("hit", (e.h = 1) = hit)
     /\ Chk("point", ~hit \/ (e.d > 0 /\ Mul(D, e.x) = Mul(e.d, X)))
     /\ Chk("weights", ~hit \/ AtQuad(e.w, e.e, <<e.v[1], e.v[2], e.v[4]>>, e.x, e.d))
Bary0(e) == Chk("barycentric", e.e > 0 /\ Tot(e.w) = e.e /\ Comb(e.w, e.v) = Mul(e.e, e.p))
Vol(a, b, c, d) == Dot(Crs(Sub(b, a), Sub(c, a)), Sub(d, a))
\* outward turning faces see a point once from within, with the sign of the orientation, and not at all from outside
Solid0(e) ==
  LET v == e.v  p == e.p  V == Vol(v[1], v[2], v[3], v[4])
      s == {Sgn(Vol(p, v[2], v[3], v[4])), Sgn(Vol(v[1], p, v[3], v[4])), Sgn(Vol(v[1], v[2], p, v[4])), Sgn(Vol(v[1], v[2], v[3], p))}
      w == IF s = {Sgn(V)} THEN Sgn(V) ELSE 0
  IN Chk("solid angle", e.r = 1 /\ e.t = w /\ e.u = w)
Aabb0(e) ==
  LET n == Len(e.v[1])
  IN Chk("padded box", (e.r = 1) = (\A i \in 1..n : (\E k \in 1..Len(e.v) : 2 * e.v[k][i] <= e.h) /\ (\E k \in 1..Len(e.v) : 2 * e.v[k][i] >= -e.h)))
PlBox0(e) ==
  LET C(i) == {PL[k][i] : k \in 1..Len(PL)} IN
  Chk("box", \A i \in 1..2 : e.b[i] \in C(i) /\ e.b[i+2] \in C(i) /\ \A x \in C(i) : e.b[i] <= x /\ x <= e.b[i+2])
PlPoint0(e) == Chk("nearest point", e.i + 1 \in 1..Len(PL) /\ \A k \in 1..Len(PL) : Sq(Sub(PL[e.i+1], e.p)) <= Sq(Sub(PL[k], e.p)))
Edges == 1..(Len(PL)-1)
PlNear0(e) ==
  LET n == Len(PL)  k == e.t \div e.d  r == e.t - k * e.d
      at == IF k = n - 1 THEN <<Sq(Sub(PL[n], e.p)), 1>>
            ELSE LET X == Sum2(Mul(e.d, PL[k+1]), Mul(r, Sub(PL[k+2], PL[k+1]))) IN <<Sq(Sub(X, Mul(e.d, e.p))), e.d * e.d>>
  IN /\ Chk("fraction", e.d > 0)
     /\ Chk("range", e.t >= 0 /\ e.t <= (n - 1) * e.d)
     /\ Chk("nearest", \A j \in Edges : Leq(at, Dist2Seg(e.p, PL[j], PL[j+1])))
PlSample0(e) ==
  LET n == Len(PL)  k == IF e.m <= 0 THEN 0 ELSE IF e.m >= 4 * (n - 1) THEN n - 1 ELSE e.m \div 4
      r == IF e.m <= 0 \/ e.m >= 4 * (n - 1) THEN 0 ELSE e.m % 4
      X == IF r = 0 THEN Mul(4, PL[k+1]) ELSE Sum2(Mul(4, PL[k+1]), Mul(r, Sub(PL[k+2], PL[k+1])))
      T(i) == Sub(PL[i+1], PL[i])
      c == IF k >= n - 1 THEN n - 1 ELSE k + 1
  IN /\ Chk("fraction", e.d > 0)
     /\ Chk("sample", Mul(4, e.x) = Mul(e.d, X))
     /\ Chk("tangent", n < 2 \/ e.t = T(c))
PlLen0(e) == Chk("length", e.l = LenTo(PL, Len(PL)))
\* the arc length of some nearest point
PlArc0(e) ==
  LET best == IF Len(PL) < 2 THEN <<0, 1>> ELSE MinOf({Dist2Seg(e.p, PL[j], PL[j+1]) : j \in Edges})
      ok(j) == LET a == PL[j]  u == Sub(PL[j+1], a)  n == Sq(u)  t == Dot(Sub(e.p, a), u)  len == LenAx(a, PL[j+1])
                   c == IF n = 0 \/ t <= 0 THEN 0 ELSE IF t >= n THEN n ELSE t
               IN Eq(Dist2Seg(e.p, a, PL[j+1]), best) /\ (IF n = 0 THEN e.t = e.d * LenTo(PL, j) ELSE e.t * len = e.d * (LenTo(PL, j) * len + c))
  IN /\ Chk("fraction", e.d > 0)
     /\ Chk("arc length", IF Len(PL) < 2 THEN e.t = 0 ELSE \E j \in Edges : ok(j))
\* a point every h/4 of length, starting at the first point, up to the end
PlRes0(e) ==
  LET L == 4 * LenTo(PL, Len(PL))  n == Len(e.x) IN
  /\ Chk("resample values", e.ok = 1)
  /\ Chk("resample count", n >= 1 /\ (n - 1) * e.h <= L /\ n * e.h >= L)
  /\ Chk("resample start", e.x[1] = Mul(4, PL[1]))
  /\ Chk("resample points", \A i \in 2..n : AtLength(PL, (i - 1) * e.h, 4, e.x[i], 4))
PlArea0(e) == Chk("area", e.a = Shoelace(PL, 1))
PlWind0(e) == Chk("winding", OnPolyline(PL, e.p) \/ e.t = Winding(PL, e.p))
K(e) == UNCHANGED PL
Step(e) ==
  CASE e.ev = "Start" -> PL' = << >>
    [] e.ev = "Near" -> (Near0(e) = TRUE) /\ K(e)
    [] e.ev = "Foot" -> (Foot0(e) = TRUE) /\ K(e)
    [] e.ev = "FaceVertex" -> (Face0(e) = TRUE) /\ K(e)
    [] e.ev = "Inside" -> (Inside0(e) = TRUE) /\ K(e)
    [] e.ev = "EdgeLine" -> (Edge0(e) = TRUE) /\ K(e)
    [] e.ev = "Lines" -> (Lines0(e) = TRUE) /\ K(e)
    [] e.ev = "EdgeEdge" -> (EE0(e) = TRUE) /\ K(e)
    [] e.ev = "Touch" -> (Touch0(e) = TRUE) /\ K(e)
    [] e.ev = "EdgeEdge2" -> (EE20(e) = TRUE) /\ K(e)
    [] e.ev = "Cut" -> (Cut0(e) = TRUE) /\ K(e)
    [] e.ev = "QuadRay" -> (QuadRay0(e) = TRUE) /\ K(e)
    [] e.ev = "QuadAt" -> (QuadAt0(e) = TRUE) /\ K(e)
    [] e.ev = "Bary" -> (Bary0(e) = TRUE) /\ K(e)
    [] e.ev = "Solid" -> (Solid0(e) = TRUE) /\ K(e)
    [] e.ev = "Aabb" -> (Aabb0(e) = TRUE) /\ K(e)
    [] e.ev = "Polyline" -> PL' = e.v
    [] e.ev = "PlBox" -> (PlBox0(e) = TRUE) /\ K(e)
    [] e.ev = "PlPoint" -> (PlPoint0(e) = TRUE) /\ K(e)
    [] e.ev = "PlNear" -> (PlNear0(e) = TRUE) /\ K(e)
    [] e.ev = "PlSample" -> (PlSample0(e) = TRUE) /\ K(e)
    [] e.ev = "PlLen" -> (PlLen0(e) = TRUE) /\ K(e)
    [] e.ev = "PlArc" -> (PlArc0(e) = TRUE) /\ K(e)
    [] e.ev = "PlResample" -> (PlRes0(e) = TRUE) /\ K(e)
    [] e.ev = "PlArea" -> (PlArea0(e) = TRUE) /\ K(e)
    [] e.ev = "PlWind" -> (PlWind0(e) = TRUE) /\ K(e)
    [] OTHER -> (Chk("crash", FALSE) = TRUE) /\ K(e)
TraceInit == l = 1 /\ PL = << >>
TraceNext == l <= NLines /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
