----------------------------- MODULE PrimTrace -----------------------------
(* C10: recorded primitive meshes                                            *)
EXTENDS Prim, TraceBase
VARIABLES l
Bad == 1000000007
\* the polygon a triangle is part of: all its corners in the same cyclic order
PosIn(q, v) == IF \E i \in 1..Len(q) : q[i] = v THEN CHOOSE i \in 1..Len(q) : q[i] = v ELSE 0
Tri(e, i) == <<e.lab[e.el[i][1]+1], e.lab[e.el[i][2]+1], e.lab[e.el[i][3]+1]>>
Flip(t) == <<t[1], t[3], t[2]>>
LabelsOK(e) == /\ Chk("vertex on the shape", \A i \in 1..Len(e.lab) : \A a \in 1..Len(e.lab[i]) : e.lab[i][a] # Bad)
               /\ Chk("vertices", NoDup(e.lab) /\ ToSet(e.lab) = Labels(e.k, e.p))
               /\ Chk("element indices", \A i \in 1..Len(e.el) : \A j \in 1..Len(e.el[i]) : e.el[i][j] \in 0..(Len(e.lab)-1))
TriCover(e, T) == \* T: label triples; every polygon is cut along a diagonal, and there is nothing else
  LET P == Polys(e.k, e.p)
      R == UNION {{T[i], <<T[i][2], T[i][3], T[i][1]>>, <<T[i][3], T[i][1], T[i][2]>>} : i \in 1..Len(T)}
  IN /\ Len(T) = MapThenSumSet(LAMBDA q : Len(q) - 2, P)
     /\ \A q \in P : IF Len(q) = 3 THEN q \in R
                     ELSE \/ <<q[1], q[2], q[3]>> \in R /\ <<q[1], q[3], q[4]>> \in R
                          \/ <<q[2], q[3], q[4]>> \in R /\ <<q[1], q[2], q[4]>> \in R
SurfOK(e) ==
  IF ~Admissible(e.k, e.p) THEN Chk("refused resolution", e.k \in {"sphere", "cylc", "cube"} => Len(e.lab) = 0 /\ Len(e.el) = 0)
  ELSE /\ LabelsOK(e)
       /\ IF e.k \in {"cubevox", "grid2"}
          THEN LET P == Polys(e.k, e.p)
                   can(q) == {[i \in 1..4 |-> q[((i+s-1) % 4) + 1]] : s \in 0..3}
                   Q == {[j \in 1..4 |-> e.lab[e.el[i][j]+1]] : i \in 1..Len(e.el)}
               IN Chk("quadrilaterals", Len(e.el) = Cardinality(P) /\ \A q \in P : Cardinality(can(q) \cap Q) = 1)
          ELSE LET T == [i \in 1..Len(e.el) |-> Tri(e, i)] IN
               Chk("triangles cover the surface", TriCover(e, T) \/ (e.k = "disk" /\ TriCover(e, [i \in 1..Len(T) |-> Flip(T[i])])))
\* lattice of hexahedra with the standard corner order
HexPts(p) == (0..p[1]) \X (0..p[2]) \X (0..p[3])
HexCells(p) == (0..(p[1]-1)) \X (0..(p[2]-1)) \X (0..(p[3]-1))
Corner(c, i) == LET D == <<<<0,0,0>>, <<1,0,0>>, <<1,1,0>>, <<0,1,0>>, <<0,0,1>>, <<1,0,1>>, <<1,1,1>>, <<0,1,1>>>> IN <<c[1]+D[i][1], c[2]+D[i][2], c[3]+D[i][3]>>
HexOK(e) == /\ Chk("vertices", NoDup(e.lab) /\ ToSet(e.lab) = HexPts(e.p))
            /\ Chk("hexahedra", /\ Len(e.el) = Cardinality(HexCells(e.p))
                 /\ {[j \in 1..8 |-> e.lab[e.el[i][j]+1]] : i \in 1..Len(e.el)} = {[j \in 1..8 |-> Corner(c, j)] : c \in HexCells(e.p)})
\* icosahedron and its once refined form: positions in 1/200 units
Sub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Det3(a, b, c) == a[1]*(b[2]*c[3]-b[3]*c[2]) + a[2]*(b[3]*c[1]-b[1]*c[3]) + a[3]*(b[1]*c[2]-b[2]*c[1])
Near(x, y, t) == x - y <= t /\ y - x <= t
BallOK(e) ==
  LET P == {[j \in 1..3 |-> e.el[i][j]] : i \in 1..Len(e.el)}
      nv == IF e.k = "ico" THEN 12 ELSE 42
      nf == IF e.k = "ico" THEN 20 ELSE 80
      X(v) == e.lab[v+1]
      deg == [v \in 0..(nv-1) |-> Cardinality({q \in P : PosIn(q, v) > 0})]
      L2(a) == LET w == Sub(X(a[1]), X(a[2])) IN Dot(w, w)
      E == UNION {PEdges(q) : q \in P}
      r2 == 152169 \* 200^2 (1 + phi^2) rounded: 144721 for phi^2+1 = 3.618
  IN /\ Chk("sizes", Len(e.lab) = nv /\ Len(e.el) = nf /\ Cardinality(P) = nf)
     /\ Chk("element indices", VertsOf(P) = 0..(nv-1))
     /\ Chk("closed", EachEdgeOnce(P) /\ Rim(P) = {} /\ FansOK(P) /\ EulerNo(P) = 2)
     /\ Chk("on the sphere", \A i \in 1..nv : Near(Dot(e.lab[i], e.lab[i]), 144721, 800))
     /\ Chk("outward", \A q \in P : Det3(X(q[1]), X(q[2]), X(q[3])) > 0)
     /\ Chk("regular", /\ Cardinality({v \in DOMAIN deg : deg[v] = 5}) = 12
                       /\ \A v \in DOMAIN deg : deg[v] \in {5, 6}
                       /\ IF e.k = "ico" THEN \A a \in E : Near(L2(a), 160000, 1600)
                          ELSE \A a \in E : Near(L2(a), IF deg[a[1]] = 5 \/ deg[a[2]] = 5 THEN 43228 ELSE 55279, 1600))
TraceInit == l = 1
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Surf" /\ (SurfOK(e) = TRUE)
     \/ e.ev = "Hex" /\ (HexOK(e) = TRUE)
     \/ e.ev = "Ball" /\ (BallOK(e) = TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
