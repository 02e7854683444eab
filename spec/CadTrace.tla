------------------------------ MODULE CadTrace ------------------------------
(* Recorded sketch histories against Cad. *)
EXTENDS Cad, TraceBase
VARIABLES l
tvars == <<l, cvars>>
\* the recorded tables are the state the action yields, geometry included
St(e) ==
  /\ Chk("counts", e.nv = nv' /\ Len(e.e) = Len(E') /\ Len(e.le) = Len(L') /\ Len(e.lv) = Len(L') /\ Len(e.f) = Len(F'))
  /\ Chk("edges", e.e = E')
  /\ Chk("loops", \A k \in 1..Len(L') : e.lv[k] = L'[k].v /\ e.le[k] = L'[k].es)
  /\ Chk("faces", e.f = F')
  /\ Chk("vertex positions", e.pos = pos')
  /\ Chk("edge end points", Len(e.p0) = Len(E') /\ Len(e.p1) = Len(E') /\ \A i \in 1..Len(E') : e.p0[i] = pos'[E'[i][1]+1] /\ e.p1[i] = pos'[E'[i][2]+1])
  /\ Sketch'
TClear(e) == nv' = 0 /\ E' = <<>> /\ L' = <<>> /\ F' = <<>> /\ pos' = <<>> /\ St(e)
TPoly(e) == AddPolygon(e.in) /\ St(e)
TVE(e) == AddVtxEdge(e.ie, e.q) /\ St(e)
TVF(e) == AddVtxFace(e.if, e.q) /\ St(e)
\* user interface: what is picked, and what a drag moves
D2Seg(q, a, b) == \* squared distance to a segment as <<numerator, denominator>>
  LET dx == b[1]-a[1]  dy == b[2]-a[2]  t == (q[1]-a[1])*dx + (q[2]-a[2])*dy  len == dx*dx + dy*dy
      c == Orient(a, b, q)
  IN IF t <= 0 THEN <<Dist2(q, a), 1>> ELSE IF t >= len THEN <<Dist2(q, b), 1>>
     ELSE IF len > 900000 THEN <<1, 0>>                            \* too long to decide with TLC integers
     ELSE IF c > 20000 \/ c < -20000 THEN <<1000000, 1>> ELSE <<c*c, len>>      \* far beyond every pick radius used
\* the pick radius is sqrt(r2 + 1/2)
NearV(q, r2) == {v \in 0..(nv-1) : Dist2(pos[v+1], q) <= r2}
CmpE(q, i, r2) == LET d == D2Seg(q, pos[E[i+1][1]+1], pos[E[i+1][2]+1]) IN IF d[2] = 0 THEN 0 ELSE Sgn(2*d[1] - (2*r2+1)*d[2])
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
TPick(e) ==
  LET V == NearV(e.q, e.r2)
      sure == {i \in 0..(Len(E)-1) : CmpE(e.q, i, e.r2) < 0}
      maybe == {i \in 0..(Len(E)-1) : CmpE(e.q, i, e.r2) = 0}
  IN /\ IF V # {} THEN Chk("picked vertex", e.iv = MinOf(V) /\ e.ie = -1)
        ELSE Chk("picked edge", e.iv = -1 /\ (\/ e.ie = -1 /\ sure = {}
                                              \/ e.ie \in maybe /\ \A i \in sure : e.ie < i
                                              \/ sure # {} /\ e.ie = MinOf(sure)))
     /\ UNCHANGED cvars
TDrag(e) ==
  /\ IF e.iv # -1 THEN Move({e.iv}, <<e.to[1] - pos[e.iv+1][1], e.to[2] - pos[e.iv+1][2]>>)
     ELSE IF e.ie # -1 THEN Move({E[e.ie+1][1], E[e.ie+1][2]}, <<e.to[1]-e.fr[1], e.to[2]-e.fr[2]>>)
     ELSE IF e.ifc # -1 THEN Move(FaceV(e.ifc+1), <<e.to[1]-e.fr[1], e.to[2]-e.fr[2]>>)
     ELSE UNCHANGED cvars
  /\ St(e)
TQuery(e) ==
  /\ Chk("vertices of a face", Len(e.vf) = Len(F) /\ \A f \in 1..Len(F) : NoDup(e.vf[f]) /\ ToSet(e.vf[f]) = FaceV(f))
  /\ Chk("edges of a face", Len(e.ef) = Len(F) /\ \A f \in 1..Len(F) : NoDup(e.ef[f]) /\ ToSet(e.ef[f]) = FaceE(f))
  /\ Chk("faces with a vertex", Len(e.fv) = nv /\ \A v \in 1..nv : NoDup(e.fv[v]) /\ ToSet(e.fv[v]) = {f-1 : f \in {g \in 1..Len(F) : v-1 \in FaceV(g)}})
  /\ Chk("faces with an edge", Len(e.fe) = Len(E) /\ \A i \in 1..Len(E) : NoDup(e.fe[i]) /\ ToSet(e.fe[i]) = {f-1 : f \in {g \in 1..Len(F) : \E d \in {0, 1} : <<i-1, d>> \in FaceE(g)}})
  /\ Chk("edge end points", \A i \in 1..Len(E) : e.ep[i] = E[i])
  /\ Chk("bounding box", E # <<>> => LET P == {pos[E[i][1]+1] : i \in 1..Len(E)} \cup {pos[E[i][2]+1] : i \in 1..Len(E)} IN
        /\ (\A p \in P : e.bb[1] <= p[1] /\ p[1] <= e.bb[2] /\ e.bb[3] <= p[2] /\ p[2] <= e.bb[4])
        /\ (\E p \in P : p[1] = e.bb[1]) /\ (\E p \in P : p[1] = e.bb[2]) /\ (\E p \in P : p[2] = e.bb[3]) /\ (\E p \in P : p[2] = e.bb[4]))
  /\ Chk("check", e.ok = 1)
  /\ UNCHANGED cvars
\* reversing a loop of curves: the same curve walked backwards; e.a, e.b: sampled edges (end points included)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s)+1-i]]
TInvert(e) ==
  /\ Chk("inverted loop", Len(e.b) = Len(e.a) /\ \A i \in 1..Len(e.a) : e.b[Len(e.a)+1-i] = Rev(e.a[i]))
  /\ Chk("loop area", e.lines = 1 => e.area2 = Area2([i \in 1..Len(e.a) |-> <<e.a[i][1][1] \div 64, e.a[i][1][2] \div 64>>]) /\ e.ainv2 = -e.area2)
  /\ Chk("zero edges removed", e.z = SelectSeq(e.a, LAMBDA s : ~(s[1] = s[2] /\ s[1] = s[3] /\ s[1] = s[4] /\ s[1] = s[5])))
  /\ UNCHANGED cvars
TraceInit == l = 1 /\ CInit
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Clear" /\ TClear(e)
     \/ e.ev = "Poly" /\ TPoly(e)
     \/ e.ev = "VtxEdge" /\ TVE(e)
     \/ e.ev = "VtxFace" /\ TVF(e)
     \/ e.ev = "Query" /\ TQuery(e)
     \/ e.ev = "Pick" /\ TPick(e)
     \/ e.ev = "Drag" /\ TDrag(e)
     \/ e.ev = "Invert" /\ TInvert(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
