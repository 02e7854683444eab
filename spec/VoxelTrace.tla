------------------------------ MODULE VoxelTrace ------------------------------
(* C09: recorded histories of a voxel grid and of the queries on it          *)
EXTENDS Voxel, TraceBase
VARIABLES l, d, S
tvars == <<l, d, S>>
Bad == 1000000007
Vals(D, T) == [i \in 1..(D[1]*D[2]*D[3]) |-> IF CellOf(D, i-1) \in T THEN 1 ELSE 0]
Same == UNCHANGED <<d, S>>

TInit(e) == LET T == IF e.v = 1 THEN Cells(e.d) ELSE {} IN
            Chk("initial cells", e.vals = Vals(e.d, T)) /\ d' = e.d /\ S' = T
TLoad(e) == d' = e.d /\ S' = {CellOf(e.d, i-1) : i \in {j \in 1..Len(e.vals) : e.vals[j] = 1}}
TSet(e) == LET T == SetCell(d, S, e.p, e.v) IN
           Chk("inside the grid", (e.inc = 1) = (e.p \in Cells(d))) /\ Chk("cell set", e.vals = Vals(d, T)) /\ S' = T /\ UNCHANGED d
TGrow(e) == LET T == Grow(d, S) IN Chk("grown cells", e.vals = Vals(d, T)) /\ S' = T /\ UNCHANGED d
TShrink(e) == LET T == Shrink(d, S) IN Chk("shrunk cells", e.vals = Vals(d, T)) /\ S' = T /\ UNCHANGED d

VtxOK(e) == /\ Chk("vertex on the lattice", \A i \in 1..Len(e.xyz) : \A a \in 1..3 : e.xyz[i][a] \in 0..d[a])
            /\ Chk("vertex twice", NoDup(e.xyz))
            /\ Chk("element indices", \A i \in 1..Len(e.el) : \A k \in 1..Len(e.el[i]) : e.el[i][k] \in 0..(Len(e.xyz)-1))
P(e, i, k) == e.xyz[e.el[i][k]+1]
QuadOK(e) ==
  /\ VtxOK(e)
  /\ LET sd == [i \in 1..Len(e.el) |-> QuadSide(<<P(e,i,1), P(e,i,2), P(e,i,3), P(e,i,4)>>)] IN
     /\ Chk("unit squares", \A i \in 1..Len(e.el) : sd[i] # <<>>)
     /\ Chk("boundary sides", ToSet(sd) = Bnd(S))
     /\ Chk("side once", Len(e.el) = Cardinality(ToSet(sd)))
HexCell(q) == \* the cell of a hexahedron with standard corner order, or <<>>
  LET a == Sub(q[2], q[1])  b == Sub(q[4], q[1])  c == Sub(q[5], q[1]) IN
  IF /\ Dot(a,a) = 1 /\ Dot(b,b) = 1 /\ Dot(c,c) = 1 /\ Det3(a, b, c) = 1
     /\ q[3] = Add(q[2], b) /\ q[6] = Add(q[2], c) /\ q[7] = Add(q[3], c) /\ q[8] = Add(q[4], c)
  THEN [k \in 1..3 |-> Min({q[i][k] : i \in 1..8})] ELSE <<>>
HexOK(e) ==
  /\ VtxOK(e)
  /\ LET H == [i \in 1..Len(e.el) |-> HexCell([k \in 1..8 |-> P(e, i, k)])] IN
     /\ Chk("unit cubes", \A i \in 1..Len(e.el) : H[i] # <<>>)
     /\ Chk("cubes of the filled cells", ToSet(H) = S /\ Len(H) = Cardinality(S))
TetF(t) == {<<t[1], t[3], t[2]>>, <<t[1], t[2], t[4]>>, <<t[2], t[3], t[4]>>, <<t[1], t[4], t[3]>>}
CanT(t) == LET m == Min({t[1], t[2], t[3]}) IN IF t[1] = m THEN t ELSE IF t[2] = m THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
TetOK(e) ==
  /\ VtxOK(e)
  /\ LET n == Len(e.el)
         lo == [i \in 1..n |-> [k \in 1..3 |-> Min({P(e,i,j)[k] : j \in 1..4})]]
         F == UNION {{CanT(f) : f \in TetF(e.el[i])} : i \in 1..n}
         Open == {f \in F : CanT(<<f[1], f[3], f[2]>>) \notin F}
         side(f) == LET p == e.xyz[f[1]+1]  a == Sub(e.xyz[f[2]+1], p)  b == Sub(e.xyz[f[3]+1], p)  m == Cross(a, b)
                        mn == [k \in 1..3 |-> Min({e.xyz[f[j]+1][k] : j \in 1..3})]
                    IN <<(IF m[1]+m[2]+m[3] = 1 THEN Sub(mn, m) ELSE mn), m>>
     IN /\ Chk("tetrahedron volume", \A i \in 1..n : Det3(Sub(P(e,i,2), P(e,i,1)), Sub(P(e,i,3), P(e,i,1)), Sub(P(e,i,4), P(e,i,1))) = 1)
        /\ Chk("tetrahedron in one cell", \A i \in 1..n : lo[i] \in S /\ \A j \in 1..4 : \A k \in 1..3 : P(e,i,j)[k] - lo[i][k] \in 0..1)
        /\ Chk("tetrahedra fill the cells", n = 6 * Cardinality(S) /\ \A c \in S : Cardinality({i \in 1..n : lo[i] = c}) = 6)
        /\ Chk("face once", Cardinality(F) = 4 * n)
        /\ Chk("open faces are the boundary", {side(f) : f \in Open} = Bnd(S) /\ Cardinality(Open) = 2 * Cardinality(Bnd(S)))
AdjOK(e) == Chk("neighbour cells", \A i \in 1..Len(e.adj) : \A k \in 1..6 :
              LET c == Add(CellOf(d, i-1), Dirs[k]) IN e.adj[i][k] = (IF c \in Cells(d) THEN Idx(d, c) ELSE -1))
GeoOK(e) == LET D == Geo(d, S, e.seeds, e.el) IN
            Chk("distances", Len(e.dist) = Cardinality(Cells(d)) /\ \A c \in Cells(d) : e.dist[Idx(d, c)+1] = D[c])
SegOK(e) ==
  LET n == Len(e.list) IN
  /\ Chk("cell in the grid", \A i \in 1..n : e.list[i] \in 0..(Cardinality(Cells(d))-1))
  /\ Chk("cell once", NoDup(e.list))
  /\ LET C == [i \in 1..n |-> CellOf(d, e.list[i])] IN
     /\ Chk("every cell on the way", {c \in Cells(d) : Through(c, e.p, e.q, e.k)} \subseteq ToSet(C))
     /\ Chk("only cells on the way", \A i \in 1..n : Touch(C[i], e.p, e.q, e.k))
     /\ Chk("in the order of the way", \A i \in 1..(n-1) : Leq(EntT(C[i], e.p, e.q, e.k), EntT(C[i+1], e.p, e.q, e.k)))
BoxOK(e) ==
  LET b == e.bb IN
  LET nb == IF b[1] > b[2] THEN <<e.p[1], e.p[1]+1, e.p[2], e.p[2]+1, e.p[3], e.p[3]+1>>
            ELSE [i \in 1..6 |-> LET a == (i+1) \div 2 IN IF i % 2 = 1 THEN Min({b[i], e.p[a]}) ELSE Max({b[i], e.p[a]+1})]
  IN /\ Chk("bounding box", e.aa = nb)
     /\ Chk("cells in the box", \A i \in 1..Len(e.q) : (e.inc[i] = 1) = \A a \in 1..3 : nb[2*a-1] <= e.q[i][a] /\ e.q[i][a] < nb[2*a])

TraceInit == l = 1 /\ d = <<0,0,0>> /\ S = {}
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Init" /\ TInit(e)
     \/ e.ev = "Load" /\ TLoad(e)
     \/ e.ev = "Set" /\ TSet(e)
     \/ e.ev = "Grow" /\ TGrow(e)
     \/ e.ev = "Shrink" /\ TShrink(e)
     \/ e.ev = "Quad" /\ (QuadOK(e) = TRUE) /\ Same
     \/ e.ev = "Hex" /\ (HexOK(e) = TRUE) /\ Same
     \/ e.ev = "Tet" /\ (TetOK(e) = TRUE) /\ Same
     \/ e.ev = "Adj" /\ (AdjOK(e) = TRUE) /\ Same
     \/ e.ev = "Geo" /\ (GeoOK(e) = TRUE) /\ Same
     \/ e.ev = "Seg" /\ (SegOK(e) = TRUE) /\ Same
     \/ e.ev = "Box" /\ (BoxOK(e) = TRUE) /\ Same
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
