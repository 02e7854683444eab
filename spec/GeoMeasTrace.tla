--------------------------- MODULE GeoMeasTrace ---------------------------
(* Recorded measures.  M is the mesh being measured: M.p points, M.t        *)
(* triangles (or quadrilaterals), M.k tetrahedra, M.n lines, M.g flags.     *)
(* A computed real number x is recorded as the rounded F * x, in the units  *)
(* of the integer points; IsF says that it is the fraction num / den.       *)
EXTENDS GeoMeas, TraceBase
VARIABLES l, M
tvars == <<l, M>>
F == 8192
IsF(X, num, den) == den > 0 /\ Abs(X) < 1000000000 \div den /\ Abs(den * X - F * num) <= den
IsFV(X, num, den) == \A i \in 1..Len(num) : IsF(X[i], num[i], den)
Np == Len(M.p)
Tq(t) == At(M.p, M.t[t])
Sel(s) == {t \in 1..Len(M.t) : s = << >> \/ s[t] = 1}
SumSel(f(_), s) == SumI(LAMBDA t : IF t \in Sel(s) THEN f(t) ELSE 0, 1, Len(M.t))
SumSelV(f(_), s) == SumV(LAMBDA t : IF t \in Sel(s) THEN f(t) ELSE Zero, 1, Len(M.t))
A2(s) == SumSel(LAMBDA t : Area2(Tq(t)), s)
Uses(e, v) == \E k \in 1..Len(e) : e[k] = v
\* ---- bounds: e.q are the points that count
Coord(q, i) == {q[k][i] : k \in 1..Len(q)}
Box0(e) == Chk("bounds", \A i \in 1..Len(e.lo) : e.lo[i] = Least(Coord(e.q, i)) /\ e.hi[i] = Most(Coord(e.q, i)))
\* centre times two and widths; of no point: centre 0 and width 1
Wide0(e) == Chk("centre and width", IF Len(e.q) = 0 THEN e.c2 = Zero /\ e.w = <<1, 1, 1>> ELSE
  \A i \in 1..3 : LET S == {Dot(e.q[k], e.f[i]) : k \in 1..Len(e.q)} IN e.c2[i] = Least(S) + Most(S) /\ e.w[i] = Most(S) - Least(S))
Long0(e) == Chk("longest edge", e.w = Most({Most(Coord(e.q, i)) - Least(Coord(e.q, i)) : i \in 1..3}))
\* ---- maps of points: e.q before, e.r after
Scale0(e) == Chk("scaled", e.r = [k \in 1..Len(e.q) |-> Mul(e.s, e.q[k])])
Move0(e) == Chk("moved", e.r = [k \in 1..Len(e.q) |-> Add(e.q[k], e.v)])
\* quarter turns about x, then y, then z
Turn1(a, n, p) == LET b == 1 + (a % 3)  d == 1 + (b % 3)
  IN CASE n % 4 = 0 -> p
       [] n % 4 = 1 -> [p EXCEPT ![b] = -p[d], ![d] = p[b]]
       [] n % 4 = 2 -> [p EXCEPT ![b] = -p[b], ![d] = -p[d]]
       [] OTHER -> [p EXCEPT ![b] = p[d], ![d] = -p[b]]
Turn0(e) == Chk("turned", e.r = [k \in 1..Len(e.q) |-> Turn1(3, e.n[3], Turn1(2, e.n[2], Turn1(1, e.n[1], e.q[k])))])
\* normalised to the longest edge e.s: centred, all in proportion
Norm0(e) == LET w == Most({Most(Coord(e.q, i)) - Least(Coord(e.q, i)) : i \in 1..3}) IN
  Chk("normalised", \A k \in 1..Len(e.q), i \in 1..3 : IsF(e.r[k][i], e.s * (2 * e.q[k][i] - Least(Coord(e.q, i)) - Most(Coord(e.q, i))), 2 * w))
\* X is the unit vector along the integer vector S
Unit(X, S) == /\ \A i \in 1..Len(S) : Abs(X[i]) <= F + 1
              /\ \A i, j \in 1..Len(S) : Abs(X[i] * S[j] - X[j] * S[i]) <= Abs(S[i]) + Abs(S[j])
              /\ Dot(X, S) > 0 /\ Abs(Sq(X) - F * F) <= 4 * F
Unit0(e) == Chk("unit vectors", \A k \in 1..Len(e.q) : Unit(e.r[k], e.q[k]))
\* directions turned into the tangent planes of unit normals e.n / e.nd
Tang0(e) == Chk("tangents", \A k \in 1..Len(e.q) :
  LET o == Sub(Mul(e.nd[k] * e.nd[k], e.q[k]), Mul(Dot(e.q[k], e.n[k]), e.n[k])) IN Unit(e.r[k], o))
Within0(e) == Chk("within the box", \A k \in 1..Len(e.r), i \in 1..Len(e.lo) : F * e.lo[i] <= e.r[k][i] + 1 /\ e.r[k][i] - 1 <= F * e.hi[i])
\* ---- centres of gravity
CgPt0(e) == Chk("mean of the points", IsFV(e.x, SumV(LAMBDA k : M.p[k], 1, Np), Np))
CgTet0(e) == LET v == TetVol6(M.p, M.k) IN
  /\ Chk("volume", IsF(e.v, v, 6))
  /\ Chk("centre of the tetrahedra", IsFV(e.x, TetMom24(M.p, M.k), 4 * v))
CgSolid0(e) == LET v == TetVol6(M.p, M.k) IN
  /\ Chk("closed", SurfArea(M.p, M.t) = Zero /\ SurfVol6(M.p, M.t) = v)
  /\ Chk("centre of the solid", IsFV(e.x, TetMom24(M.p, M.k), 4 * v))
CgShell0(e) == LET a == A2(e.s) IN
  /\ Chk("centre of the shell", a = 0 \/ IsFV(e.x, SumSelV(LAMBDA t : Mul(Area2(Tq(t)), Corner(Tq(t))), e.s), 3 * a))
  /\ Chk("area", e.a = -1 \/ IsF(e.a, a, 2))
Area0(e) == Chk("area", IsF(e.a, A2(e.s), 2))
CgTri0(e) == Chk("centre of the triangle", IsFV(e.x, Mul(1000, Corner(Tq(e.t + 1))), 3))
LineL(n) == Length(M.p[n[1] + 1], M.p[n[2] + 1])
CgLine0(e) == LET s == SumI(LAMBDA n : LineL(M.n[n]), 1, Len(M.n)) IN
  /\ Chk("length", IsF(e.v, s, 1))
  /\ Chk("centre of the lines", IsFV(e.x, SumV(LAMBDA n : Mul(LineL(M.n[n]), Corner(At(M.p, M.n[n]))), 1, Len(M.n)), 2 * s))
\* centres of the triangles and nine times the square of the largest distance of a corner
Cents0(e) ==
  /\ Chk("centres", \A t \in 1..Len(M.t) : IsFV(e.x[t], Corner(Tq(t)), 3))
  /\ Chk("largest radius", e.r9 = Most({Sq(Sub(Mul(3, Tq(t)[k]), Corner(Tq(t)))) : t \in 1..Len(M.t), k \in 1..3}))
\* ---- lumped masses
MassTet0(e) == Chk("masses", \A v \in 1..Np : IsF(e.m[v], e.rho * SumI(LAMBDA t : IF Uses(M.k[t], v - 1) THEN Vol6(At(M.p, M.k[t])) ELSE 0, 1, Len(M.k)), 24))
MassTri0(e) == Chk("masses", \A v \in 1..Np : IsF(e.m[v], e.rho * SumI(LAMBDA t : IF Uses(M.t[t], v - 1) THEN (IF e.flat = 1 THEN Area2F(Tq(t)) ELSE Area2(Tq(t))) ELSE 0, 1, Len(M.t)), 6))
\* ---- inertia about the origin
InPoint(p, i, j) == (IF i = j THEN Sq(p) ELSE 0) - p[i] * p[j]
Inert0(e) ==
  LET val(i, j) ==
    CASE e.k = "point" -> <<InPoint(e.q[1], i, j), 1>>
      [] e.k = "line" -> LET d == Sub(e.q[2], e.q[1])  m == Add(e.q[1], e.q[2]) IN <<Length(e.q[1], e.q[2]) * (InPoint(d, i, j) + 3 * InPoint(m, i, j)), 12>>
      [] e.k = "tri" -> <<Area2(e.q) * Inert(e.q, i, j), 24>>
      [] OTHER -> <<TriSolid120(e.q, i, j), 120>>
  IN Chk("inertia", \A i, j \in 1..3 : IsF(e.x[3 * (i - 1) + j], val(i, j)[1], val(i, j)[2]))
\* of the solid: the sum over its surface
InertSolid0(e) == Chk("inertia of the solid", \A i, j \in 1..3 : IsF(e.x[3 * (i - 1) + j], SumI(LAMBDA t : Tet120(At(M.p, M.k[t]), i, j), 1, Len(M.k)), 120))
\* ---- normals: 72 times the sum of the unit normals of the triangles at a point; tri(t, v) are the corners that count
N72(q) == LET a == Area2(q) IN [i \in 1..3 |-> (Nrm(q)[i] * 72) \div a]
Fair(q) == Area2(q) > 0 /\ 72 % Area2(q) = 0
Norms0(e) == Chk("normals of the points", \A v \in 1..Np :
  LET T == {t \in 1..Len(M.t) : Uses(M.t[t], v - 1)}
      S == SumV(LAMBDA t : IF t \in T THEN N72(Tq(t)) ELSE Zero, 1, Len(M.t))
  IN T = {} \/ S = Zero \/ Unit(e.r[v], S))
Loc(q, v) == CHOOSE k \in 1..4 : q[k] = v
NormsQ0(e) == Chk("normals of the points", \A v \in 1..Np :
  LET T == {t \in 1..Len(M.t) : Uses(M.t[t], v - 1)}
      Q(t) == LET k == Loc(M.t[t], v - 1) IN <<Tq(t)[1 + ((k + 2) % 4)], Tq(t)[k], Tq(t)[1 + (k % 4)]>>
      S == SumV(LAMBDA t : IF t \in T THEN N72(Q(t)) ELSE Zero, 1, Len(M.t))
  IN T = {} \/ S = Zero \/ Unit(e.r[v], S))
TriNorm0(e) == Chk("normal of the triangle", e.x = Nrm(Tq(e.t + 1)))
\* ---- triangles one by one
Uni0(e) == /\ Chk("corners", e.x = [t \in 1..Len(M.t) |-> Tq(t)[1] \o Tq(t)[2] \o Tq(t)[3]])
           /\ Chk("edges", e.d = [t \in 1..Len(M.t) |-> Tq(t)[1] \o Tq(t)[2] \o Tq(t)[2] \o Tq(t)[3] \o Tq(t)[3] \o Tq(t)[1]])
           /\ Chk("colours", e.col = [t \in 1..Len(M.t) |-> LET g == e.rgb[e.g[t] + 1] IN g \o g \o g])
           /\ Chk("normals", \A t \in 1..Len(M.t) : Area2(Tq(t)) = 0 \/ (e.n[t][1] = e.n[t][2] /\ e.n[t][2] = e.n[t][3] /\ Unit(e.n[t][1], Nrm(Tq(t)))))
\* ---- points on the mesh, weights in eighths
W8(w, q) == Add(Add(Mul(w[1], q[1]), Mul(w[2], q[2])), Mul(8 - w[1] - w[2], q[3]))
OnTri0(e) == Chk("point on the triangle", e.x8 = W8(e.w, Tq(e.t + 1)))
OnNorm0(e) == LET S == W8(e.w, At(e.nv, M.t[e.t + 1])) IN Chk("normal at the point", S = Zero \/ Unit(e.x, S))
OnFace0(e) == Chk("point on the face", e.x8 = W8(e.w, [k \in 1..3 |-> M.p[M.k[e.t + 1][FaceOf[e.face + 1][k]] + 1]]))
\* field of heights: cells of a grid of nx by ny points, two triangles to the cell, cell rows numbered by points
OnGrid0(e) == LET c == e.t \div 2  x == c % e.nx  y == c \div e.nx
                  G(a, b) == <<a * e.el, b * e.el, e.h[b * e.nx + a + 1]>>
              IN Chk("point on the grid", e.x8 = W8(e.w, IF e.t % 2 = 0 THEN <<G(x, y), G(x+1, y), G(x+1, y+1)>> ELSE <<G(x, y), G(x+1, y+1), G(x, y+1)>>))
Valid0(e) == LET w3 == 8 - e.w[1] - e.w[2] IN
  Chk("valid point", (e.r = 1) = (e.t \in 0..(Len(M.t) - 1) /\ \A x \in {e.w[1], e.w[2], w3} : -e.eps <= x /\ x <= 8 + e.eps))
\* random points: triangles hit in proportion to the area, the four quarters of the triangle equally; 7 deviations
Samp0(e) == LET a == A2(e.s)  n == SumI(LAMBDA t : e.hit[t], 1, Len(M.t))
                far(x, m, d) == (x * d - n * m) * (x * d - n * m) > 49 * n * m * d + 49 * d * d
            IN /\ Chk("inside", e.bad = 0)
               /\ Chk("only with area", \A t \in 1..Len(M.t) : e.hit[t] = 0 \/ (t \in Sel(e.s) /\ Area2(Tq(t)) > 0))
               /\ Chk("in proportion", \A t \in Sel(e.s) : ~far(e.hit[t], Area2(Tq(t)), a))
               /\ Chk("even", \A k \in 1..4 : ~far(e.quarter[k], 1, 4))
\* ---- one step of smoothing: the first point goes to the centre of its triangles
Smooth0(e) == LET T == [t \in 1..Len(M.t) |-> IF Uses(M.t[t], 0) THEN 1 ELSE 0] IN
  Chk("centre of the neighbours", IsFV(e.x, SumSelV(LAMBDA t : Mul(Area2(Tq(t)), Corner(Tq(t))), T), 3 * A2(T)))
\* ---- quality: smallest area, largest (mean edge)^2 / area; edges of integer length
Peri(q) == Length(q[1], q[2]) + Length(q[2], q[3]) + Length(q[3], q[1])
Qual0(e) == LET T == 1..Len(M.t) IN
  /\ Chk("smallest area", e.a2 = Least({Area2F(Tq(t)) : t \in T}))
  /\ Chk("largest aspect", (\A t \in T : LET x == 2 * Peri(Tq(t)) * Peri(Tq(t)) IN 9 * Area2F(Tq(t)) * e.r + 9 * Area2F(Tq(t)) >= F * x)
                           /\ \E t \in T : IsF(e.r, 2 * Peri(Tq(t)) * Peri(Tq(t)), 9 * Area2F(Tq(t))))
\* distortion beyond e.ta / 8 in area or e.te / 8 in length (e.q flat corners, e.p corners in space)
Dist0(e) ==
  LET a2 == Area2F(e.q)  a3 == Area2(e.p)
      area == a2 <= 0 \/ 4 * (a2 * a2 + a3 * a3) > e.ta * a2 * a3
      d2(k) == Sq(Sub(e.q[1 + (k % 3)], e.q[k]))  d3(k) == Sq(Sub(e.p[1 + (k % 3)], e.p[k]))
      len(k) == 16 * (d2(k) + d3(k)) * (d2(k) + d3(k)) > e.te * e.te * d2(k) * d3(k)
      tie == 4 * (a2 * a2 + a3 * a3) = e.ta * a2 * a3 \/ \E k \in 1..3 : 16 * (d2(k) + d3(k)) * (d2(k) + d3(k)) = e.te * e.te * d2(k) * d3(k)
  IN Chk("distorted", tie \/ ((e.r = 1) = (area \/ \E k \in 1..3 : len(k))))
\* ---- points in use only
Unref0(e) ==
  LET used == {e.t0[k] : k \in 1..Len(e.t0)} IN
  /\ Chk("map", Len(e.map) = Len(e.p0) /\ \A v \in 1..Len(e.p0) : e.map[v] = IF (v - 1) \in used THEN Cardinality({u \in used : u < v - 1}) ELSE -2)
  /\ Chk("points kept", Len(e.p1) = Cardinality(used) /\ \A v \in used : e.p1[e.map[v + 1] + 1] = e.p0[v + 1])
  /\ Chk("elements", e.t1 = [k \in 1..Len(e.t0) |-> e.map[e.t0[k] + 1]])
Join0(e) == /\ Chk("points", e.p = e.p1 \o e.p2)
            /\ Chk("triangles", e.t = e.t1 \o [k \in 1..Len(e.t2) |-> e.t2[k] + Len(e.p1)])
\* ---- a flat mesh made thick: layers of points, positive tetrahedra that fit together and fill it
Thick0(e) ==
  LET n == Np  Q == e.p  K == e.k
      pos(v) == <<M.p[1 + (v % n)][1], M.p[1 + (v % n)][2], (v \div n) * e.h>>
      fc == {<<t, f>> : t \in 1..Len(K), f \in 1..4}
      canon(f) == CHOOSE g \in Rot(f) : g[1] < g[2] /\ g[1] < g[3]
      Fs == {canon(FaceV(K, a)) : a \in fc}
      free == {f \in Fs : canon(Flip(f)) \notin Fs}
      rim == {b \in {<<M.t[t][k], M.t[t][1 + (k % 3)]>> : t \in 1..Len(M.t), k \in 1..3} :
                ~\E t \in 1..Len(M.t), k \in 1..3 : M.t[t][1 + (k % 3)] = b[1] /\ M.t[t][k] = b[2]}
  IN /\ Chk("points", Len(Q) = n * (e.n + 1) /\ \A v \in 1..Len(Q) : Q[v] = pos(v - 1))
     /\ Chk("indices", \A t \in 1..Len(K), j \in 1..4 : K[t][j] \in 0..(Len(Q) - 1))
     /\ Chk("positive", \A t \in 1..Len(K) : Vol6(At(Q, K[t])) > 0)
     /\ Chk("volume", SumI(LAMBDA t : Vol6(At(Q, K[t])), 1, Len(K)) = 3 * e.n * e.h * SumI(LAMBDA t : Area2F(Tq(t)), 1, Len(M.t)))
     /\ Chk("faces once", Cardinality(Fs) = 4 * Len(K))
     /\ Chk("conforming", \A f \in free :
          \/ \A j \in 1..3 : f[j] < n
          \/ \A j \in 1..3 : f[j] >= n * e.n
          \/ \E b \in rim : {f[j] % n : j \in 1..3} = {b[1], b[2]})
\* ---- outer solid angle of the corners of a box surface, in eighths of the sphere (e.b: highest corner of the box from 0)
Solid0(e) == LET in(v) == Cardinality({s \in {-1, 1} \X {-1, 1} \X {-1, 1} : \A i \in 1..3 : LET x == 2 * M.p[v][i] + s[i] IN x > 0 /\ x < 2 * e.b[i]}) IN
  Chk("solid angle", \A v \in 1..Np : IF \E t \in 1..Len(M.t) : Uses(M.t[t], v - 1) THEN Abs(e.r[v] - 1000 * (8 - in(v))) <= 1 ELSE e.r[v] = -1)
Consume(e) ==
  CASE e.ev = "Box" -> (Box0(e) = TRUE) [] e.ev = "Wide" -> (Wide0(e) = TRUE) [] e.ev = "Long" -> (Long0(e) = TRUE)
    [] e.ev = "Scale" -> (Scale0(e) = TRUE) [] e.ev = "Move" -> (Move0(e) = TRUE) [] e.ev = "Turn" -> (Turn0(e) = TRUE)
    [] e.ev = "Norm" -> (Norm0(e) = TRUE) [] e.ev = "Unit" -> (Unit0(e) = TRUE) [] e.ev = "Tang" -> (Tang0(e) = TRUE) [] e.ev = "Within" -> (Within0(e) = TRUE)
    [] e.ev = "CgPt" -> (CgPt0(e) = TRUE) [] e.ev = "CgTet" -> (CgTet0(e) = TRUE) [] e.ev = "CgSolid" -> (CgSolid0(e) = TRUE)
    [] e.ev = "CgShell" -> (CgShell0(e) = TRUE) [] e.ev = "Area" -> (Area0(e) = TRUE) [] e.ev = "CgTri" -> (CgTri0(e) = TRUE) [] e.ev = "CgLine" -> (CgLine0(e) = TRUE)
    [] e.ev = "Cents" -> (Cents0(e) = TRUE) [] e.ev = "MassTet" -> (MassTet0(e) = TRUE) [] e.ev = "MassTri" -> (MassTri0(e) = TRUE)
    [] e.ev = "Inert" -> (Inert0(e) = TRUE) [] e.ev = "InertSolid" -> (InertSolid0(e) = TRUE)
    [] e.ev = "Norms" -> (Norms0(e) = TRUE) [] e.ev = "NormsQ" -> (NormsQ0(e) = TRUE) [] e.ev = "TriNorm" -> (TriNorm0(e) = TRUE)
    [] e.ev = "Uni" -> (Uni0(e) = TRUE) [] e.ev = "OnTri" -> (OnTri0(e) = TRUE) [] e.ev = "OnNorm" -> (OnNorm0(e) = TRUE) [] e.ev = "OnFace" -> (OnFace0(e) = TRUE)
    [] e.ev = "OnGrid" -> (OnGrid0(e) = TRUE) [] e.ev = "Valid" -> (Valid0(e) = TRUE) [] e.ev = "Samp" -> (Samp0(e) = TRUE) [] e.ev = "Smooth" -> (Smooth0(e) = TRUE)
    [] e.ev = "Qual" -> (Qual0(e) = TRUE) [] e.ev = "Dist" -> (Dist0(e) = TRUE) [] e.ev = "Unref" -> (Unref0(e) = TRUE) [] e.ev = "Join" -> (Join0(e) = TRUE)
    [] e.ev = "Thick" -> (Thick0(e) = TRUE) [] e.ev = "Solid" -> (Solid0(e) = TRUE)
    [] e.ev = "Start" -> TRUE [] OTHER -> (Chk("crash", FALSE) = TRUE)
None == [p |-> << >>, t |-> << >>, k |-> << >>, n |-> << >>]
Step(e) == IF e.ev = "Mesh" THEN M' = [p |-> e.p, t |-> e.t, k |-> e.k, n |-> e.n] ELSE Consume(e) /\ UNCHANGED M
TraceInit == l = 1 /\ M = None
TraceNext == l <= NLines /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
