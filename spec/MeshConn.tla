------------------------------ MODULE MeshConn ------------------------------
(* Connectivity of element meshes.  A mesh is a sequence of elements, each  *)
(* a kind and the tuple of its vertices (numbered from 0); the sides and    *)
(* edges of a kind are listed in the order and orientation of the VTK       *)
(* numbering.  Everything the library derives (elements around a vertex,    *)
(* neighbouring vertices, element across a side, edges, boundary, groups)   *)
(* is defined here from the element list alone.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES M, NP
cvars == <<M, NP>>

TRI == 0  TET == 1  QUAD == 2  HEX == 3  PYR == 4  WED == 5  VOX == 6  LINE == 7
NNode(k) == CASE k = TRI -> 3 [] k = TET -> 4 [] k = QUAD -> 4 [] k = HEX -> 8 [] k = PYR -> 5 [] k = WED -> 6 [] k = VOX -> 8 [] OTHER -> 2
SideTab == [k \in 0..7 |->
  CASE k = TRI  -> << <<1,2>>, <<2,0>>, <<0,1>> >>
    [] k = TET  -> << <<1,2,3>>, <<0,3,2>>, <<0,1,3>>, <<0,2,1>> >>
    [] k = QUAD -> << <<0,1>>, <<1,2>>, <<2,3>>, <<3,0>> >>
    [] k = HEX  -> << <<0,4,7,3>>, <<1,2,6,5>>, <<0,1,5,4>>, <<3,7,6,2>>, <<0,3,2,1>>, <<4,5,6,7>> >>
    [] k = PYR  -> << <<0,3,2,1>>, <<0,1,4>>, <<1,2,4>>, <<2,3,4>>, <<3,0,4>> >>
    [] k = WED  -> << <<0,2,5,3>>, <<1,0,3,4>>, <<2,1,4,5>>, <<0,1,2>>, <<3,5,4>> >>
    [] k = VOX  -> << <<0,4,6,2>>, <<1,3,7,5>>, <<0,1,5,4>>, <<2,6,7,3>>, <<0,2,3,1>>, <<4,5,7,6>> >>
    [] OTHER    -> << <<0>>, <<1>> >>]
Sides(k) == SideTab[k]
NSide(k) == Len(SideTab[k])
\* edges of a solid are the edges of its faces; of a surface element its sides; a line is its own edge
CycEdges(s) == {{s[i], s[(i % Len(s)) + 1]} : i \in 1..Len(s)}
LEdgeTab == [k \in 0..7 |-> IF k \in {TRI, QUAD} THEN {{s[1], s[2]} : s \in {Sides(k)[i] : i \in 1..NSide(k)}}
             ELSE IF k = LINE THEN {{0, 1}}
             ELSE UNION {CycEdges(Sides(k)[i]) : i \in 1..NSide(k)}]
LEdges(k) == LEdgeTab[k]

Range(s) == {s[i] : i \in 1..Len(s)}
VtxOf(e) == Range(e.v)
SideV(e, i) == [j \in 1..Len(Sides(e.k)[i]) |-> e.v[Sides(e.k)[i][j] + 1]]
SideSet(e, i) == Range(SideV(e, i))
EdgesOf(e) == {{e.v[a+1] : a \in s} : s \in LEdges(e.k)}

NE == Len(M)
ElSuP(p) == {i \in 1..NE : p \in VtxOf(M[i])}
PSuP(p) == (UNION {VtxOf(M[i]) : i \in ElSuP(p)}) \ {p}
\* elements that share side i of element n; AcrossTab is the whole table at once
Across(n, i) == LET S == SideSet(M[n], i) IN {m \in 1..NE \ {n} : \E j \in 1..NSide(M[m].k) : SideSet(M[m], j) = S}
AcrossTab ==
  LET SS == TLCEval([n \in 1..NE |-> TLCEval([i \in 1..NSide(M[n].k) |-> SideSet(M[n], i)])])
      RS == TLCEval([n \in 1..NE |-> {SS[n][i] : i \in 1..NSide(M[n].k)}])
  IN TLCEval([n \in 1..NE |-> TLCEval([i \in 1..NSide(M[n].k) |-> {m \in 1..NE : m # n /\ SS[n][i] \in RS[m]}])])
SideAt(m, S) == {j \in 1..NSide(M[m].k) : SideSet(M[m], j) = S}
AllEdges == UNION {EdgesOf(M[i]) : i \in 1..NE}
Bnd == {<<n, i>> : n \in 1..NE, i \in 1..6} \cap UNION {{<<n, i>> : i \in {x \in 1..NSide(M[n].k) : Across(n, x) = {}}} : n \in 1..NE}
TwoStep(N, p) == (UNION {N[q] : q \in N[p]}) \ {p}
\* groups: the partition of the elements into classes joined by chains of shared sides
RECURSIVE CloseIn(_, _)
CloseIn(T, S) == LET N == S \cup UNION {T[n] : n \in S} IN IF N = S THEN S ELSE CloseIn(T, N)
TouchTab == LET A == AcrossTab IN TLCEval([n \in 1..NE |-> UNION {A[n][i] : i \in 1..NSide(M[n].k)}])
Close(S) == CloseIn(TouchTab, S)
ClassTab == LET T == TouchTab IN TLCEval([n \in 1..NE |-> CloseIn(T, {n})])
Groups == LET C == ClassTab IN {C[n] : n \in 1..NE}
\* number of the group of each element: groups numbered by their first element
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
GroupNo(n) == Cardinality({g \in Groups : Min(g) < Min(Close({n}))})

CInit == M = <<>> /\ NP = 0
AddElem(k, v) == M' = Append(M, [k |-> k, v |-> v]) /\ NP' = NP
=============================================================================
