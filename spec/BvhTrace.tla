------------------------------ MODULE BvhTrace ------------------------------
(* C11: recorded hierarchies and searches.  Positions are small integers,    *)
(* margins halves (m2); sphere volumes are logged in 1/50 units.             *)
EXTENDS Bvh, TraceBase
VARIABLES l, X, E, m2, T, V
tvars == <<l, X, E, m2, T, V>>
n == Len(E)
O == 1..n
Pt(o, i) == X[E[o][i]+1]
K == 50
\* ---- volumes
BoxOf(o) == [lo |-> [a \in 1..3 |-> 2*Min({Pt(o, i)[a] : i \in 1..Len(E[o])}) - m2], hi |-> [a \in 1..3 |-> 2*Max({Pt(o, i)[a] : i \in 1..Len(E[o])}) + m2]]
AabbOK(v) == \* v: per node <<x0,x1,y0,y1,z0,z1>> times 2
  LET B == [o \in O |-> BoxOf(o)] IN
  /\ Len(v) = Len(T)
  /\ \A i \in 1..Len(T) : IF T[i][3] = -1
       THEN \A a \in 1..3 : v[i][2*a-1] = B[T[i][2]+1].lo[a] /\ v[i][2*a] = B[T[i][2]+1].hi[a]
       ELSE LET p == v[T[i][2]+1]  q == v[T[i][3]+1] IN
            \A a \in 1..3 : v[i][2*a-1] = Min({p[2*a-1], q[2*a-1]}) /\ v[i][2*a] = Max({p[2*a], q[2*a]})
Sq(x) == x*x
Ctr(v) == <<v[2], v[3], v[4]>>
Up(p) == <<K*p[1], K*p[2], K*p[3]>>
SphOK(v) == \* v: per node <<r, cx, cy, cz>> times 50
  /\ Len(v) = Len(T)
  /\ \A i \in 1..Len(T) : v[i][1] >= 0 /\ IF T[i][3] = -1
       THEN v[i][1] + 3 >= 25*m2 /\ \A j \in 1..Len(E[T[i][2]+1]) : D2(Ctr(v[i]), Up(Pt(T[i][2]+1, j))) <= Sq(v[i][1] - 25*m2 + 3)
       ELSE \A c \in {T[i][2]+1, T[i][3]+1} : v[i][1] - v[c][1] + 4 >= 0 /\ D2(Ctr(v[i]), Ctr(v[c])) <= Sq(v[i][1] - v[c][1] + 4)
\* points have volumes without extent
PtVolOK(v) == (m2 = 0 /\ \A o \in O : Len(E[o]) = 1) => \A i \in 1..Len(T) : T[i][3] = -1 => v[i][1] = 0 /\ Ctr(v[i]) = Up(Pt(T[i][2]+1, 1))
Vl(o) == V[LeafOf(T, o-1)]
\* ---- searches: 1 must be found, 0 must not, -1 borderline
Within(d2, r, s) == IF r >= s /\ d2 < Sq(r - s) THEN 1 ELSE IF d2 > Sq(r + s) THEN 0 ELSE -1
Found(list, verdict(_)) ==
  /\ NoDup(list) /\ \A i \in 1..Len(list) : list[i] \in 0..(n-1)
  /\ \A o \in O : LET w == verdict(o) IN IF w = 1 THEN o-1 \in ToSet(list) ELSE IF w = 0 THEN o-1 \notin ToSet(list) ELSE TRUE
InBox(o, q) == LET b == BoxOf(o) IN IF \A a \in 1..3 : 2*q[a] >= b.lo[a] /\ 2*q[a] <= b.hi[a] THEN 1 ELSE 0
InSph(o, q) == LET v == Vl(o) IN Within(D2(Ctr(v), Up(q)), v[1], 2)
OnLine(o, s, d) == LET v == Vl(o)  c == Cross(Sub(Ctr(v), Up(s)), d)  dd == Dot(d, d) IN
  IF v[1] >= 2 /\ Dot(c, c) < Sq(v[1] - 2) * dd THEN 1 ELSE IF Dot(c, c) > Sq(v[1] + 2) * dd THEN 0 ELSE -1
OnRay(o, s, d) == LET v == Vl(o)  in == InSph(o, s)  w == OnLine(o, s, d)  t == Dot(Sub(Ctr(v), Up(s)), d) IN
  IF in = 1 THEN 1 ELSE IF in = -1 THEN -1 ELSE IF t < 0 THEN 0 ELSE IF t = 0 /\ w # 0 THEN -1 ELSE w
\* distance from q between a/2 and b/2 (odd numbers): points only
InRange(o, q, a, b) == LET d == 4 * D2(Pt(o, 1), q) IN IF (a < 0 \/ d > a*a) /\ d < b*b THEN 1 ELSE 0
RangeVol(o, q, a, b) == \* volumes of any size: the farthest and the nearest point against the range
  LET v == Vl(o)  d == D2(Ctr(v), Up(q)) IN
  IF (v[1] + 25*b >= 3 /\ d < Sq(v[1] + 25*b - 3)) /\ (25*a - v[1] <= -3 \/ d > Sq(25*a - v[1] + 3)) THEN 1
  ELSE IF d > Sq(v[1] + 25*b + 3) \/ (25*a - v[1] >= 3 /\ d < Sq(25*a - v[1] - 3)) THEN 0 ELSE -1
NearD2(q) == Min({D2(Pt(o, 1), q) : o \in O})
TriF(o, q) == PtTriF(q, Pt(o, 1), Pt(o, 2), Pt(o, 3))
CloseF(f, d2k) == LET e == 1000*f[1] - d2k*f[2] IN e <= f[2] /\ -e <= f[2]
NearTriOK(e) == /\ Chk("nearest triangle", e.tri \in 0..(n-1))
                /\ LET f == MinF({TriF(o, e.q) : o \in O}) IN
                   Chk("smallest distance", CloseF(f, e.d2k)) /\ Chk("distance of the triangle", CloseF(TriF(e.tri+1, e.q), e.d2k))
IncTriOK(e) == \* nearest among the triangles whose volume holds the point
  LET M == {o \in O : InSph(o, e.q) = 1}  W == {o \in O : InSph(o, e.q) # 0} IN
  IF e.tri = -1 THEN /\ Chk("holding volume overlooked", M = {})
                     /\ LET far(o) == LET v == Vl(o) IN D2(Ctr(v), Up(e.q)) IN
                        /\ Chk("not beyond the explored distance", e.gap <= 25*e.rad + 1)
                        /\ Chk("gap not too large", \A o \in O : Sq(e.gap + Vl(o)[1] - 5) <= far(o) \/ e.gap + Vl(o)[1] < 5)
                        /\ Chk("gap not too small", e.gap >= 25*e.rad - 1 \/ \E o \in O : Sq(e.gap + Vl(o)[1] + 5) >= far(o))
  ELSE /\ Chk("volume holds the point", e.tri+1 \in W)
       /\ Chk("distance of the triangle", CloseF(TriF(e.tri+1, e.q), e.d2k))
       /\ Chk("smallest distance", \A o \in M : LET f == TriF(o, e.q) IN 1000*f[1] - e.d2k*f[2] >= -f[2])
\* ---- pairs
Shares(o, p) == \E i \in 1..3, j \in 1..3 : E[o][i] = E[p][j]
P3(o) == <<Pt(o, 1), Pt(o, 2), Pt(o, 3)>>
PairsOK(e) ==
  LET S == {{e.pairs[i][1], e.pairs[i][2]} : i \in 1..Len(e.pairs)} IN
  /\ Chk("pair of two triangles", \A i \in 1..Len(e.pairs) : e.pairs[i][1] \in 0..(n-1) /\ e.pairs[i][2] \in 0..(n-1) /\ e.pairs[i][1] # e.pairs[i][2])
  /\ Chk("pair once", Cardinality(S) = Len(e.pairs))
  /\ \A o \in O : \A p \in (o+1)..n : IF Shares(o, p) THEN Chk("pair of neighbours", {o-1, p-1} \notin S)
       ELSE LET w == TriTri(P3(o), P3(p)) IN
            /\ (Chk("crossing pair missed", w = 1 => {o-1, p-1} \in S))
            /\ (Chk("pair that does not cross", w = 0 => {o-1, p-1} \notin S))
Vtx == UNION {{E[o][i] : i \in 1..3} : o \in O}
Edg == {{E[o][i], E[o][(i % 3) + 1]} : i \in 1..3, o \in O}
ProxOK(e) ==
  LET FV == {<<{c[2], c[3], c[4]}, c[5]>> : c \in {e.got[i] : i \in {j \in 1..Len(e.got) : e.got[j][1] = 1}}}
      EE == {{{c[2], c[3]}, {c[4], c[5]}} : c \in {e.got[i] : i \in {j \in 1..Len(e.got) : e.got[j][1] = 0}}}
      Fc == {{E[o][1], E[o][2], E[o][3]} : o \in O}
      ord(S) == LET a == Min(S)  b == Max(S) IN <<a, b>>
      mid(S) == CHOOSE x \in S : x # Min(S) /\ x # Max(S)
  IN /\ Chk("contact once", Len(e.got) = Cardinality(FV) + Cardinality(EE))
     /\ Chk("contact of the mesh", \A f \in FV : f[1] \in Fc /\ f[2] \in Vtx \ f[1])
     /\ Chk("contact of the mesh", \A f \in EE : f \subseteq Edg /\ Cardinality(UNION f) = 4)
     /\ \A f \in Fc : \A v \in Vtx \ f :
          LET w == FVNear(X[Min(f)+1], X[mid(f)+1], X[Max(f)+1], X[v+1], e.dl) IN
          /\ (Chk("vertex near a face missed", w = 1 => <<f, v>> \in FV))
          /\ (Chk("vertex not near the face", w = 0 => <<f, v>> \notin FV))
     /\ \A s \in Edg : \A t \in Edg : (s \cap t = {} /\ Min(s) < Min(t)) =>
          LET w == EENear(X[Min(s)+1], X[Max(s)+1], X[Min(t)+1], X[Max(t)+1], e.dl) IN
          /\ (Chk("edge near an edge missed", w = 1 => {s, t} \in EE))
          /\ (Chk("edge not near the edge", w = 0 => {s, t} \notin EE))
CcdOK(e) == LET G == ToSet(e.got) IN \* against the pair test applied to every pair
            Chk("contact once", Cardinality(G) = Len(e.got)) /\ Chk("moving contact missed", ToSet(e.must) \subseteq G) /\ Chk("moving contact not there", G \subseteq ToSet(e.may))
HitOK(e) == \* first triangle met by a ray: exact when the ray meets no edge or vertex
  LET den(o) == Dot(Cross(Sub(Pt(o, 2), Pt(o, 1)), Sub(Pt(o, 3), Pt(o, 1))), e.d)
      num(o) == Dot(Cross(Sub(Pt(o, 2), Pt(o, 1)), Sub(Pt(o, 3), Pt(o, 1))), Sub(Pt(o, 1), e.q))
      side(o, i, j) == Sgn(Dot(Cross(Sub(Pt(o, i), e.q), Sub(Pt(o, j), e.q)), e.d))
      st(o) == LET D == {side(o, 1, 2), side(o, 2, 3), side(o, 3, 1)} IN
               IF 1 \in D /\ -1 \in D THEN 0 ELSE IF 0 \in D \/ den(o) = 0 \/ num(o) = 0 THEN -1 ELSE IF Sgn(num(o)) = Sgn(den(o)) THEN 1 ELSE 0
      dep(o) == IF den(o) > 0 THEN <<num(o), den(o)>> ELSE <<-num(o), -den(o)>>
      H == {o \in O : st(o) = 1}  B == {o \in O : st(o) = -1}
  IN IF e.tri = -1 THEN Chk("triangle on the ray overlooked", H = {})
     ELSE /\ Chk("triangle on the ray", e.tri \in 0..(n-1) /\ e.tri+1 \in H \cup B)
          /\ (Chk("first triangle on the ray", e.tri+1 \in H => \A o \in H : LeF(dep(e.tri+1), dep(o))))
MortonOK(e) ==
  /\ Chk("objects sorted once each", Len(e.ids) = Len(X) /\ ToSet(e.ids) = 0..(Len(X)-1))
  /\ Chk("codes ascending", \A i \in 1..(Len(e.codes)-1) : e.codes[i] <= e.codes[i+1])
  /\ Chk("code of the point", \A i \in 1..Len(e.ids) :
        LET c == [a \in 1..3 |-> LET s == ((X[e.ids[i]+1][a] - e.lo[a]) * 1024) \div (e.hi[a] - e.lo[a]) IN IF s > 1023 THEN 1023 ELSE IF s < 0 THEN 0 ELSE s]
        IN e.codes[i] = Code(c[1], c[2], c[3]))

TraceInit == l = 1 /\ X = <<>> /\ E = <<>> /\ m2 = 0 /\ T = <<>> /\ V = <<>>
Same == UNCHANGED <<X, E, m2, T, V>>
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Objs" /\ X' = e.x /\ E' = e.el /\ m2' = e.m2 /\ UNCHANGED <<T, V>>
     \/ e.ev = "Tree" /\ (Chk("hierarchy", TreeOK(e.nodes, n)) = TRUE) /\ T' = e.nodes /\ UNCHANGED <<X, E, m2, V>>
     \/ e.ev = "Aabb" /\ (Chk("box volumes", AabbOK(e.vol)) = TRUE) /\ Same
     \/ e.ev = "Sph" /\ (Chk("sphere volumes", SphOK(e.vol) /\ PtVolOK(e.vol)) = TRUE) /\ V' = e.vol /\ UNCHANGED <<X, E, m2, T>>
     \/ e.ev = "Morton" /\ (MortonOK(e) = TRUE) /\ Same
     \/ e.ev = "IncBox" /\ (Chk("objects at the point", Found(e.list, LAMBDA o : InBox(o, e.q))) = TRUE) /\ Same
     \/ e.ev = "IncSph" /\ (Chk("objects at the point", Found(e.list, LAMBDA o : InSph(o, e.q))) = TRUE) /\ Same
     \/ e.ev = "Line" /\ (Chk("objects on the line", Found(e.list, LAMBDA o : OnLine(o, e.q, e.d))) = TRUE) /\ Same
     \/ e.ev = "Ray" /\ (Chk("objects on the ray", Found(e.list, LAMBDA o : OnRay(o, e.q, e.d))) = TRUE) /\ Same
     \/ e.ev = "Range" /\ (Chk("objects in the range", Found(e.list, LAMBDA o : InRange(o, e.q, e.a, e.b))) = TRUE) /\ Same
     \/ e.ev = "RangeV" /\ (Chk("volumes in the range", Found(e.list, LAMBDA o : RangeVol(o, e.q, e.a, e.b))) = TRUE) /\ Same
     \/ e.ev = "Near" /\ (Chk("nearest point", e.ip \in 0..(n-1) /\ D2(Pt(e.ip+1, 1), e.q) = NearD2(e.q) /\ e.d2 = NearD2(e.q)) = TRUE) /\ Same
     \/ e.ev = "NearR" /\ (Chk("range of the nearest", e.lo = NearD2(e.q) /\ e.hi = NearD2(e.q)) = TRUE) /\ Same
     \/ e.ev = "NearTri" /\ (NearTriOK(e) = TRUE) /\ Same
     \/ e.ev = "IncTri" /\ (IncTriOK(e) = TRUE) /\ Same
     \/ e.ev = "Pairs" /\ (PairsOK(e) = TRUE) /\ Same
     \/ e.ev = "Hit" /\ (HitOK(e) = TRUE) /\ Same
     \/ e.ev = "Prox" /\ (ProxOK(e) = TRUE) /\ Same
     \/ e.ev = "Ccd" /\ (CcdOK(e) = TRUE) /\ Same
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
