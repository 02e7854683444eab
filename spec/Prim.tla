-------------------------------- MODULE Prim --------------------------------
(* C10: the surfaces the primitive generators are meant to make, as          *)
(* complexes of oriented polygons over labelled vertices.  A quadrilateral   *)
(* may be cut along either diagonal.                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt
Mod(i, n) == ((i % n) + n) % n
Rep(x, n) == [i \in 1..n |-> x]
\* sizes of the rings, from the bottom up
RingSizes(k, p) ==
  CASE k = "sphere" -> <<1>> \o Rep(p[2], p[1]-1) \o <<1>>
    [] k = "cylo" -> Rep(p[1], p[2]+1)
    [] k = "cylc" -> <<1>> \o Rep(p[1], p[2]+1) \o <<1>>
    [] k = "capsule" -> <<1>> \o Rep(p[1], 2*p[2]+p[3]-1) \o <<1>>
    [] k = "disk" -> <<1>> \o Rep(p[2], p[1])
    [] k = "torus" -> Rep(p[2], p[1])
    [] OTHER -> <<>>
RingKinds == {"sphere", "cylo", "cylc", "capsule", "disk", "torus"}
Band(a, na, b, nb) == \* polygons between ring a (below) and ring b
  IF na = 1 THEN {<<<<a,0>>, <<b,Mod(i+1,nb)>>, <<b,i>>>> : i \in 0..(nb-1)}
  ELSE IF nb = 1 THEN {<<<<a,i>>, <<a,Mod(i+1,na)>>, <<b,0>>>> : i \in 0..(na-1)}
  ELSE {<<<<a,i>>, <<a,Mod(i+1,na)>>, <<b,Mod(i+1,na)>>, <<b,i>>>> : i \in 0..(na-1)}
\* one side of a box of n[1] x n[2] x n[3] cells: axis a, at 0 or n[a], outward
Rot(a) == <<a, (a % 3) + 1, ((a+1) % 3) + 1>>
Put(a, x, y, z) == LET r == Rot(a) IN [i \in 1..3 |-> IF i = r[1] THEN x ELSE IF i = r[2] THEN y ELSE z]
BoxSide(n, a) ==
  LET r == Rot(a) IN
  UNION {{ <<Put(a,n[a],i,j), Put(a,n[a],i+1,j), Put(a,n[a],i+1,j+1), Put(a,n[a],i,j+1)>>,
           <<Put(a,0,i,j), Put(a,0,i,j+1), Put(a,0,i+1,j+1), Put(a,0,i+1,j)>> } : i \in 0..(n[r[2]]-1), j \in 0..(n[r[3]]-1)}
BoxPolys(n) == BoxSide(n, 1) \cup BoxSide(n, 2) \cup BoxSide(n, 3)
Grid2(nx, ny) == {<<<<i,j>>, <<i+1,j>>, <<i+1,j+1>>, <<i,j+1>>>> : i \in 0..(nx-1), j \in 0..(ny-1)}
Polys(k, p) ==
  IF k \in RingKinds
  THEN LET R == RingSizes(k, p)  n == Len(R) IN
       UNION {Band(i-1, R[i], Mod(i,n), R[Mod(i,n)+1]) : i \in IF k = "torus" THEN 1..n ELSE 1..(n-1)}
  ELSE IF k = "cube" THEN BoxPolys(<<p[1], p[1], p[1]>>)
  ELSE IF k = "cubevox" THEN BoxPolys(<<1, 1, 1>>)
  ELSE IF k = "grid2" THEN Grid2(p[1], p[2]) ELSE {}
Labels(k, p) == UNION {{q[i] : i \in 1..Len(q)} : q \in Polys(k, p)}
\* resolutions the generators are specified for
Admissible(k, p) ==
  CASE k = "sphere" -> p[1] >= 2 /\ p[2] >= 3
    [] k \in {"cylo", "cylc"} -> p[1] >= 3 /\ p[2] >= 1
    [] k = "capsule" -> p[1] >= 3 /\ p[2] >= 1 /\ p[3] >= 1
    [] k = "disk" -> p[1] >= 1 /\ p[2] >= 3
    [] k = "torus" -> p[1] >= 3 /\ p[2] >= 3
    [] OTHER -> \A i \in 1..Len(p) : p[i] >= 1
\* ---------------- closed surfaces
PEdges(q) == {<<q[i], q[(i % Len(q)) + 1]>> : i \in 1..Len(q)}
Rim(P) == LET E == UNION {PEdges(q) : q \in P} IN {e \in E : <<e[2], e[1]>> \notin E}
EachEdgeOnce(P) == Cardinality(UNION {PEdges(q) : q \in P}) = MapThenSumSet(LAMBDA q : Len(q), P)
VertsOf(P) == UNION {{q[i] : i \in 1..Len(q)} : q \in P}
EulerNo(P) == LET E == UNION {PEdges(q) : q \in P} IN Cardinality(VertsOf(P)) - Cardinality({{e[1], e[2]} : e \in E}) + Cardinality(P)
\* directed link edges around a vertex: from its successor to its predecessor in each polygon
LinkOf(P, v) == {LET i == CHOOSE i \in 1..Len(q) : q[i] = v IN <<q[(i % Len(q)) + 1], q[IF i = 1 THEN Len(q) ELSE i-1]>> : q \in {q \in P : \E i \in 1..Len(q) : q[i] = v}}
RECURSIVE ReachL(_, _)
ReachL(L, R) == LET N == R \cup {e[2] : e \in {x \in L : x[1] \in R}} \cup {e[1] : e \in {x \in L : x[2] \in R}} IN IF N = R THEN R ELSE ReachL(L, N)
OneFan(L) == L # {} /\ LET N == {e[1] : e \in L} \cup {e[2] : e \in L} IN
             /\ ReachL(L, {CHOOSE x \in N : TRUE}) = N
             /\ \A x \in N : Cardinality({e \in L : e[1] = x}) <= 1 /\ Cardinality({e \in L : e[2] = x}) <= 1
FansOK(P) == \A v \in VertsOf(P) : OneFan(LinkOf(P, v))
EulerWant(k) == IF k = "torus" \/ k = "cylo" THEN 0 ELSE IF k \in {"disk", "grid2"} THEN 1 ELSE 2
RimWant(k, p) == IF k = "disk" THEN p[2] ELSE IF k = "cylo" THEN 2 * p[1] ELSE IF k = "grid2" THEN 2*(p[1]+p[2]) ELSE 0
=============================================================================
