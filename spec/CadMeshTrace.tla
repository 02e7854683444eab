---------------------------- MODULE CadMeshTrace ----------------------------
EXTENDS CadMesh, TraceBase
VARIABLES l, nd, flag
tvars == <<l, cvars, nd, flag>>
\* the sketch as recorded must itself be one (C04 checks how it came about)
TSketch(e) ==
  /\ nv' = e.nv /\ E' = e.e /\ F' = e.f /\ pos' = e.pos
  /\ L' = [k \in 1..Len(e.lv) |-> [v |-> e.lv[k], es |-> e.le[k]]]
  /\ Chk("sketch", Sketch') /\ nd' = <<>> /\ flag' = <<>>
TMesh(e) ==
  LET D == [i \in 1..NE |-> Len(e.ep[i]) + 1]
      T(f) == {i \in 1..Len(e.tri) : e.ft[i] = f-1}
      Segs(S) == UNION {TriSegs(e.tri[i]) : i \in S}
      NP == Len(e.xy)  B == NB(D)
  IN
  /\ Chk("counts", e.n = <<nv, NE, Len(F)>> /\ Len(e.ep) = NE /\ Len(e.fp) = NP /\ Len(e.ft) = Len(e.tri))
  /\ Chk("divisions", \A i \in 1..NE : e.want[i] > 0 => D[i] = e.want[i])
  /\ Chk("division length", e.len > 0 => \A i \in 1..NE : e.want[i] <= 0 => Dist2(pos[E[i][1]+1], pos[E[i][2]+1]) <= D[i]*D[i]*e.len*e.len)
  /\ Chk("cad vertices", NP >= B /\ \A v \in 1..nv : e.xy[v] = <<pos[v][1]*e.s, pos[v][2]*e.s>>)
  /\ Chk("edge points", \A i \in 1..NE : [k \in 1..Len(e.ep[i]) |-> e.ep[i][k]] = EdgePts(D, i-1))
  /\ Chk("edge point positions", \A i \in 1..NE : \A k \in 1..Len(e.ep[i]) :
        LET a == pos[E[i][1]+1]  b == pos[E[i][2]+1]  q == e.xy[e.ep[i][k]+1]  n == D[i]
        IN /\ q[1]*n = (a[1]*(n-k) + b[1]*k)*e.s /\ q[2]*n = (a[2]*(n-k) + b[2]*k)*e.s /\ e.er[i][k]*n = k*e.s)
  /\ Chk("point flags", \A p \in 0..(NP-1) : IF p < B THEN e.fp[p+1] = FlagOf(D, p) ELSE e.fp[p+1] \in (nv+NE)..(nv+NE+Len(F)-1))
  /\ Chk("face indices", \A i \in 1..Len(e.tri) : e.ft[i] \in 0..(Len(F)-1) /\ \A k \in 1..3 : e.tri[i][k] \in 0..(NP-1))
  /\ Chk("faces ccw", e.pos = 1)
  /\ \A f \in 1..Len(F) : LET S == T(f)  DE == Segs(S) IN
       /\ Chk("edge used twice", Cardinality(DE) = 3 * Cardinality(S))
       /\ Chk("rim of the face", {s \in DE : <<s[2], s[1]>> \notin DE} = FaceRim(D, f))
       /\ Chk("points of the face", {s[1] : s \in DE} = OnFaceB(D, f) \cup {p \in B..(NP-1) : e.fp[p+1] = nv + NE + f - 1})
       /\ Chk("orientation", e.inner = 0 => \A i \in S : Orient(e.xy[e.tri[i][1]+1], e.xy[e.tri[i][2]+1], e.xy[e.tri[i][3]+1]) > 0)
  /\ Chk("inner points", e.inner = 0 => NP = B)
  /\ Chk("table sizes", Len(e.s2) = Len(e.tri) /\ Len(e.pe) = NP /\ Len(e.pd) = NP)
  /\ Chk("neighbours", LET DD == Segs(1..Len(e.tri)) IN \A i \in 1..Len(e.tri) : \A k \in 1..3 :
        LET a == e.tri[i][(k % 3) + 1]  b == e.tri[i][((k+1) % 3) + 1]  n == e.s2[i][k]
        IN IF n = -1 THEN <<b, a>> \notin DD ELSE n \in 0..(Len(e.tri)-1) /\ <<b, a>> \in TriSegs(e.tri[n+1]))
  /\ Chk("vertex reference", \A v \in 1..NP : e.pe[v] \in 0..(Len(e.tri)-1) /\ e.pd[v] \in 0..2 /\ e.tri[e.pe[v]+1][e.pd[v]+1] = v-1)
  /\ nd' = D /\ flag' = e.fp /\ UNCHANGED cvars
FacePts(f) == OnFaceB(nd, f+1) \cup {p \in 0..(Len(flag)-1) : flag[p+1] = nv + NE + f}
TSel(e) ==
  /\ IF e.kind = 0 THEN Chk("points of one edge", e.out = (IF e.end = 1 THEN Chain(nd, e.sel[1]) ELSE EdgePts(nd, e.sel[1])))
     ELSE IF e.kind = 1 THEN Chk("points of edges", NoDup(e.out) /\ ToSet(e.out) = OnEdges(nd, ToSet(e.sel)))
     ELSE Chk("points of faces", NoDup(e.out) /\ ToSet(e.out) = UNION {FacePts(f) : f \in ToSet(e.sel)})
  /\ UNCHANGED <<cvars, nd, flag>>
TraceInit == l = 1 /\ CInit /\ nd = <<>> /\ flag = <<>>
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Sketch" /\ TSketch(e)
     \/ e.ev = "Mesh" /\ TMesh(e)
     \/ e.ev = "Select" /\ TSel(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
