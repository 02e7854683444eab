------------------------------ MODULE DTriTrace ------------------------------
(* Validates recorded edit histories of the real mesh against DTri.  The     *)
(* concrete tables (corner vertices, neighbours, vertex-to-face references)  *)
(* are logged in full after each call and must project to the abstract state *)
(* the action yields.                                                        *)
EXTENDS DTri, TraceBase

VARIABLES l, tri, s2, pe, pd
tvars == <<F, NV, l, tri, s2, pe, pd>>

Abs(tr) == {Norm(tr[i]) : i \in 1..Len(tr)}

InRange(e) ==
  /\ Chk("table sizes", Len(e.tri) = Len(e.s2) /\ Len(e.pe) = e.nv /\ Len(e.pd) = e.nv)
  /\ Chk("corner range", \A i \in 1..Len(e.tri) : \A k \in 1..3 : e.tri[i][k] \in 0..(e.nv-1))
  /\ Chk("corner distinct", \A i \in 1..Len(e.tri) : Cardinality(ToSet(e.tri[i])) = 3)

\* neighbour k of a face lies across the edge of the other two corners
EdgeA(t, k) == t[(k % 3) + 1]
EdgeB(t, k) == t[((k + 1) % 3) + 1]
Consistent(e) ==
  /\ InRange(e)
  /\ Chk("no face twice", Cardinality(Abs(e.tri)) = Len(e.tri))
  /\ Chk("neighbours", \A i \in 1..Len(e.tri) : \A k \in 1..3 :
        LET a == EdgeA(e.tri[i], k)  b == EdgeB(e.tri[i], k)  n == e.s2[i][k]
        IN IF n = -1 THEN \A j \in 1..Len(e.tri) : <<b, a>> \notin DEdges(e.tri[j])
           ELSE n \in 0..(Len(e.tri)-1) /\ <<b, a>> \in DEdges(e.tri[n+1]))
  /\ Chk("vertex reference", \A v \in 1..e.nv :
        IF e.pe[v] = -1 THEN \A j \in 1..Len(e.tri) : v-1 \notin ToSet(e.tri[j])
        ELSE /\ e.pe[v] \in 0..(Len(e.tri)-1) /\ e.pd[v] \in 0..2
             /\ e.tri[e.pe[v]+1][e.pd[v]+1] = v-1)
  /\ Chk("manifold", Manifold(Abs(e.tri)))

Load(e) == /\ tri' = e.tri /\ s2' = e.s2 /\ pe' = e.pe /\ pd' = e.pd
Same(e) == e.tri = tri /\ e.s2 = s2 /\ e.pe = pe /\ e.pd = pd /\ e.nv = NV

Corner(it, k) == tri[it+1][(k % 3) + 1]
A(e) == Corner(e.it, e.ie + 1)
B(e) == Corner(e.it, e.ie + 2)

TInit(e) == /\ Consistent(e)
            /\ Chk("faces as given", SameBag([i \in 1..Len(e.in) |-> Norm(e.in[i])], [i \in 1..Len(e.tri) |-> Norm(e.tri[i])]))
            /\ F' = Abs(e.tri) /\ NV' = e.nv /\ Load(e)
TInsFace(e) == /\ Chk("accepted", e.ret = 1) /\ Consistent(e)
               /\ InsertFace(Norm(tri[e.it+1]))
               /\ Chk("result", Abs(e.tri) = F' /\ e.nv = NV') /\ Load(e)
TInsEdge(e) == /\ Chk("accepted", e.ret = 1) /\ Consistent(e)
               /\ InsertEdge(A(e), B(e))
               /\ Chk("result", Abs(e.tri) = F' /\ e.nv = NV') /\ Load(e)
TFlip(e) ==
  IF FaceOf(F, B(e), A(e)) = {}
  THEN /\ Chk("boundary flip refused", e.ret = 0) /\ Chk("refused edit changes nothing", Same(e)) /\ UNCHANGED <<F, NV, tri, s2, pe, pd>>
  ELSE /\ Chk("accepted", e.ret = 1) /\ Consistent(e)
       /\ Flip(A(e), B(e)) /\ Chk("result", Abs(e.tri) = F' /\ e.nv = NV') /\ Load(e)
TCollapse(e) ==
  IF e.ret = 0
  THEN /\ Chk("must be accepted", ~ColMustAccept(F, A(e), B(e)))
       /\ Chk("refused edit changes nothing", Same(e)) /\ UNCHANGED <<F, NV, tri, s2, pe, pd>>
  ELSE /\ Chk("must be refused", ~ColMustRefuse(F, A(e), B(e)))
       /\ Consistent(e)
       /\ F' = ColRes(F, A(e), B(e)) /\ NV' = NV
       /\ Chk("result", Abs(e.tri) = F' /\ e.nv = NV') /\ Load(e)
TDelete(e) == /\ Chk("accepted", e.ret = 1) /\ Consistent(e)
              /\ DeleteFace(Norm(tri[e.it+1]))
              /\ Chk("result", Abs(e.tri) = F' /\ e.nv = NV') /\ Load(e)

\* ---- queries, evaluated on the current mesh
TriIx(a, b) == {i \in 1..Len(tri) : <<a, b>> \in DEdges(tri[i])}
CornerOf(i, v) == CHOOSE k \in 0..2 : tri[i][k+1] = v
Step(q, i, c, ccw) == \* q = <<moved, face, corner>>
  LET v == tri[i][c+1]
      w == IF ccw THEN Corner(i-1, c+2) ELSE Corner(i-1, c+1)
      S == IF ccw THEN TriIx(v, w) ELSE TriIx(w, v)
  IN IF S = {} THEN q[1] = 0
     ELSE q[1] = 1 /\ q[2] \in 0..(Len(tri)-1) /\ (q[2]+1) \in S /\ q[3] = CornerOf(q[2]+1, v)
TQuery(e) ==
  /\ Chk("query does not edit", Same(e))
  /\ Chk("rotate ccw", \A i \in 1..Len(tri) : \A c \in 0..2 : Step(e.ccw[3*(i-1)+c+1], i, c, TRUE))
  /\ Chk("rotate cw", \A i \in 1..Len(tri) : \A c \in 0..2 : Step(e.cw[3*(i-1)+c+1], i, c, FALSE))
  /\ Chk("around", \A v \in 1..NV : pe[v] # -1 =>
       LET R == e.around[v]
           B1(k) == tri[R[k][1]+1][((R[k][2]+1) % 3) + 1]
           B2(k) == tri[R[k][1]+1][((R[k][2]+2) % 3) + 1]
       IN /\ \A k \in 1..Len(R) : R[k][1] \in 0..(Len(tri)-1) /\ R[k][2] \in 0..2 /\ tri[R[k][1]+1][R[k][2]+1] = v-1
          /\ Cardinality({R[k][1] : k \in 1..Len(R)}) = Len(R)
          /\ \A k \in 1..(Len(R)-1) : B2(k) = B1(k+1)
          /\ IF OnBoundary(F, v-1)
             THEN Len(R) > 0 /\ <<v-1, B2(Len(R))>> \notin AllD(F)
             ELSE {R[k][1] : k \in 1..Len(R)} = {i-1 : i \in {j \in 1..Len(tri) : v-1 \in ToSet(tri[j])}})
  /\ Chk("ring", \A v \in 1..NV : (pe[v] # -1 /\ ~OnBoundary(F, v-1)) =>
        ToSet(e.ring[v]) = Nbr(F, v-1) /\ NoDup(e.ring[v]))
  /\ Chk("find edge", \A k \in 1..Len(e.find) :
       LET q == e.find[k] IN
       IF q[3] = 0 THEN <<q[1], q[2]>> \notin AllD(F)
       ELSE /\ q[4] \in 0..(Len(tri)-1) /\ q[5] \in 0..2 /\ q[6] \in 0..2
            /\ tri[q[4]+1][q[5]+1] = q[1] /\ tri[q[4]+1][q[6]+1] = q[2] /\ q[6] = (q[5]+1) % 3)
  /\ Chk("find edge all", \A k \in 1..Len(e.findall) :
       LET q == e.findall[k] IN
       IF q[3] = -1 THEN <<q[1], q[2]>> \notin AllD(F)
       ELSE /\ q[3] \in 0..(Len(tri)-1) /\ q[4] \in 0..2
            /\ tri[q[3]+1][q[4]+1] = q[1] /\ tri[q[3]+1][((q[4]+1)%3)+1] = q[2])
  /\ Chk("holes", LET BD == BoundaryD(F) IN
        /\ UNION {ToSet(e.holes[i]) : i \in 1..Len(e.holes)} = {d[1] : d \in BD}
        /\ \A i \in 1..Len(e.holes) :
             LET h == e.holes[i] IN
             /\ NoDup(h)
             /\ \A j \in 1..Len(h) : <<h[j], h[(j % Len(h)) + 1]>> \in BD
        /\ \A i, j \in 1..Len(e.holes) : i # j => ToSet(e.holes[i]) \cap ToSet(e.holes[j]) = {})
  /\ UNCHANGED <<F, NV, tri, s2, pe, pd>>

TraceInit == l = 1 /\ F = {} /\ NV = 0 /\ tri = <<>> /\ s2 = <<>> /\ pe = <<>> /\ pd = <<>>
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Init" /\ TInit(e)
     \/ e.ev = "InsFace" /\ TInsFace(e)
     \/ e.ev = "InsEdge" /\ TInsEdge(e)
     \/ e.ev = "Flip" /\ TFlip(e)
     \/ e.ev = "Collapse" /\ TCollapse(e)
     \/ e.ev = "Delete" /\ TDelete(e)
     \/ e.ev = "Query" /\ TQuery(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
