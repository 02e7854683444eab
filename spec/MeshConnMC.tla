----------------------------- MODULE MeshConnMC -----------------------------
(* Meshes grown element by element from a menu; the design check relates    *)
(* the derived tables to each other and to the previous mesh.               *)
EXTENDS MeshConn, Json, IOUtils
\* the tables as they are carried from one element to the next
VARIABLE tab
Mode == IOEnv.MESH_MODE
Depth == atoi(IOEnv.MESH_DEPTH)
Kind == IOEnv.MESH_KIND
Tuples3(n) == {<<a,b,c>> \in (0..(n-1)) \X (0..(n-1)) \X (0..(n-1)) : a < b /\ a < c /\ b # c}
L3(i,j,k) == i + 3*j + 9*k
Box(i,j,k) == <<L3(i,j,k), L3(i+1,j,k), L3(i+1,j+1,k), L3(i,j+1,k), L3(i,j,k+1), L3(i+1,j,k+1), L3(i+1,j+1,k+1), L3(i,j+1,k+1)>>
Rot(h) == <<h[2], h[3], h[4], h[1], h[6], h[7], h[8], h[5]>>
Flip3(h) == <<h[5], h[8], h[7], h[6], h[1], h[4], h[3], h[2]>>
Hexes == UNION {{Box(i,j,k), Rot(Box(i,j,k)), Flip3(Box(i,j,k))} : i \in 0..1, j \in 0..1, k \in 0..1}
VoxB(i,j,k) == LET b == Box(i,j,k) IN <<b[1], b[2], b[4], b[3], b[5], b[6], b[8], b[7]>>
Q == {<<0,1,2,3>>, <<1,4,5,2>>, <<3,2,6,7>>, <<2,5,8,6>>, <<4,1,2,5>>, <<0,3,7,9>>, <<1,0,3,2>>, <<9,7,3,0>>}
Menu ==
  CASE Kind = "tri"  -> {[k |-> TRI, v |-> t] : t \in Tuples3(5)}
    [] Kind = "quad" -> {[k |-> QUAD, v |-> t] : t \in Q}
    [] Kind = "tet"  -> {[k |-> TET, v |-> t] : t \in {<<0,1,2,3>>, <<1,2,3,4>>, <<0,2,1,4>>, <<3,2,4,5>>, <<0,1,3,6>>, <<1,0,2,5>>, <<2,3,5,6>>, <<4,2,1,6>>}}
    [] Kind = "hex"  -> {[k |-> HEX, v |-> h] : h \in Hexes}
    [] Kind = "line" -> {[k |-> LINE, v |-> <<a, b>>] : a \in 0..4, b \in 0..4} \ {[k |-> LINE, v |-> <<a, a>>] : a \in 0..4}
    [] Kind = "vox"  -> {[k |-> VOX, v |-> VoxB(i,j,k)] : i \in 0..1, j \in 0..1, k \in 0..1}
    [] OTHER -> {[k |-> HEX, v |-> <<0,1,2,3,4,5,6,7>>], [k |-> HEX, v |-> <<1,8,9,2,5,10,11,6>>],
                 [k |-> PYR, v |-> <<4,5,6,7,12>>], [k |-> PYR, v |-> <<1,2,6,5,8>>], [k |-> WED, v |-> <<0,4,13,1,5,14>>], [k |-> WED, v |-> <<4,12,13,5,15,14>>],
                 [k |-> TET, v |-> <<4,5,12,15>>], [k |-> TET, v |-> <<5,6,12,15>>], [k |-> TET, v |-> <<6,5,8,15>>],
                 [k |-> QUAD, v |-> <<4,5,6,7>>], [k |-> TRI, v |-> <<4,5,12>>], [k |-> QUAD, v |-> <<5,6,11,10>>], [k |-> TRI, v |-> <<6,5,15>>], [k |-> QUAD, v |-> <<7,6,5,16>>],
                 [k |-> VOX, v |-> <<3,2,17,18,7,6,19,20>>]}
MaxV == 27
Tab0 == [across |-> <<>>, esup |-> [p \in 0..MaxV |-> {}], psup |-> [p \in 0..MaxV |-> {}], edges |-> {}, grp |-> {}]
Grow(e) ==
  LET n == NE + 1
      S == [i \in 1..NSide(e.k) |-> SideSet(e, i)]  R == {S[i] : i \in 1..NSide(e.k)}
      Old(i) == {m \in 1..NE : \E j \in 1..NSide(M[m].k) : SideSet(M[m], j) = S[i]}
      N == UNION {Old(i) : i \in 1..NSide(e.k)}
      Met == {g \in tab.grp : g \cap N # {}}
      V == VtxOf(e)
  IN [across |-> Append([m \in 1..NE |-> [i \in 1..NSide(M[m].k) |-> IF SideSet(M[m], i) \in R THEN tab.across[m][i] \cup {n} ELSE tab.across[m][i]]],
                        [i \in 1..NSide(e.k) |-> Old(i)]),
      esup |-> [p \in 0..MaxV |-> IF p \in V THEN tab.esup[p] \cup {n} ELSE tab.esup[p]],
      psup |-> [p \in 0..MaxV |-> IF p \in V THEN tab.psup[p] \cup (V \ {p}) ELSE tab.psup[p]],
      edges |-> tab.edges \cup EdgesOf(e),
      grp |-> (tab.grp \ Met) \cup {{n} \cup UNION Met}]
MCInit == CInit /\ tab = Tab0
MCNext == /\ Len(M) < Depth
          /\ \E e \in Menu : /\ \A i \in 1..NE : VtxOf(M[i]) # VtxOf(e) \/ M[i].k # e.k
                             /\ AddElem(e.k, e.v)
                             /\ tab' = IF Mode = "mc" THEN Grow(e) ELSE tab
MCSpec == MCInit /\ [][MCNext]_<<cvars, tab>>
Verts == UNION {VtxOf(M[i]) : i \in 1..NE}
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Incidence == Sum([p \in Verts |-> Cardinality(ElSuP(p))], Verts) = Sum([i \in 1..NE |-> NNode(M[i].k)], 1..NE)
Symmetric == \A p \in Verts : \A q \in PSuP(p) : p \in PSuP(q)
AcrossSym == LET A == AcrossTab IN \A n \in 1..NE : \A i \in 1..NSide(M[n].k) : \A m \in A[n][i] : \E j \in 1..NSide(M[m].k) : n \in A[m][j]
EdgesWithin == \A e \in AllEdges : Cardinality(e) = 2 /\ \A p \in e : (e \ {p}) \subseteq PSuP(p)
\* a closed solid's face orientation: every edge of a solid is used once in each direction by its faces
Oriented == \A n \in 1..NE : M[n].k \in {TET, HEX, PYR, WED, VOX} =>
   LET D(i) == LET s == SideV(M[n], i) IN {<<s[j], s[(j % Len(s)) + 1]>> : j \in 1..Len(s)}
   IN \A i \in 1..NSide(M[n].k) : \A d \in D(i) : Cardinality({j \in 1..NSide(M[n].k) : <<d[2], d[1]>> \in D(j)}) = 1 /\ \A j \in 1..NSide(M[n].k) \ {i} : d \notin D(j)
GroupsPartition == LET G == Groups IN /\ UNION G = 1..NE /\ \A a, b \in G : a = b \/ a \cap b = {}
                   /\ TRUE
Tables == /\ tab.across = AcrossTab /\ tab.grp = Groups /\ tab.edges = AllEdges
          /\ \A p \in 0..MaxV : tab.esup[p] = ElSuP(p) /\ tab.psup[p] = PSuP(p)
Inv == Mode = "mc" =>
       (Tables /\ Incidence /\ Symmetric /\ AcrossSym /\ EdgesWithin /\ Oriented /\ GroupsPartition)
Emit == (Mode = "gen" /\ Len(M) > 0 /\ (Len(M) = Depth \/ Len(M) = Depth - 1)) => PrintT("@@" \o ToJson([i \in 1..NE |-> <<M[i].k>> \o M[i].v]))
=============================================================================
