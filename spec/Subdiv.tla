------------------------------- MODULE Subdiv -------------------------------
(* One subdivision of a mesh of quads, hexes or tets.  A vertex of the      *)
(* refined mesh stands for a vertex, an edge, a face or a cell of the old   *)
(* mesh, i.e. for a set of old vertices: one, two, four or eight of them.   *)
(* A child element is a tuple of such sets of local corners of its parent.  *)
EXTENDS MeshConn, FiniteSetsExt
QC(i) == << {i}, {i, (i+1)%4}, 0..3, {i, (i+3)%4} >>
\* the child at every corner of the hexahedron, by the corner it keeps in place
HexChild ==
  << << {0}, {0,1}, {0,1,2,3}, {0,3}, {0,4}, {0,1,4,5}, 0..7, {0,3,4,7} >>,
     << {0,1}, {1}, {1,2}, {0,1,2,3}, {0,1,4,5}, {1,5}, {1,2,5,6}, 0..7 >>,
     << {0,1,2,3}, {1,2}, {2}, {2,3}, 0..7, {1,2,5,6}, {2,6}, {2,3,6,7} >>,
     << {0,3}, {0,1,2,3}, {2,3}, {3}, {0,3,4,7}, 0..7, {2,3,6,7}, {3,7} >>,
     << {0,4}, {0,1,4,5}, 0..7, {0,3,4,7}, {4}, {4,5}, {4,5,6,7}, {4,7} >>,
     << {0,1,4,5}, {1,5}, {1,2,5,6}, 0..7, {4,5}, {5}, {5,6}, {4,5,6,7} >>,
     << 0..7, {1,2,5,6}, {2,6}, {2,3,6,7}, {4,5,6,7}, {5,6}, {6}, {6,7} >>,
     << {0,3,4,7}, 0..7, {2,3,6,7}, {3,7}, {4,7}, {4,5,6,7}, {6,7}, {7} >> >>
TetCorner == << << {0}, {0,1}, {0,2}, {0,3} >>, << {1}, {0,1}, {1,3}, {1,2} >>, << {2}, {0,2}, {1,2}, {2,3} >>, << {3}, {0,3}, {2,3}, {1,3} >> >>
\* the octahedron in the middle is cut around one of its three diagonals
TetInner(d) ==
  CASE d = 1 -> << << {0,1}, {2,3}, {1,3}, {1,2} >>, << {0,1}, {2,3}, {1,2}, {0,2} >>, << {0,1}, {2,3}, {0,2}, {0,3} >>, << {0,1}, {2,3}, {0,3}, {1,3} >> >>
    [] d = 2 -> << << {0,2}, {1,3}, {1,2}, {2,3} >>, << {0,2}, {1,3}, {2,3}, {0,3} >>, << {0,2}, {1,3}, {0,3}, {0,1} >>, << {0,2}, {1,3}, {0,1}, {1,2} >> >>
    [] OTHER -> << << {0,3}, {1,2}, {2,3}, {1,3} >>, << {0,3}, {1,2}, {1,3}, {0,1} >>, << {0,3}, {1,2}, {0,1}, {0,2} >>, << {0,3}, {1,2}, {0,2}, {2,3} >> >>
ChildTab(k, d) == CASE k = QUAD -> [i \in 1..4 |-> QC(i-1)] [] k = HEX -> HexChild [] OTHER -> TetCorner \o TetInner(d)
Img(e, S) == {e.v[i+1] : i \in S}
FaceSets == UNION {{SideSet(M[n], i) : i \in 1..NSide(M[n].k)} : n \in 1..NE}
NewVerts(k) == NP + Cardinality(AllEdges) + (IF k = TET THEN 0 ELSE NE) + (IF k = HEX THEN Cardinality(FaceSets) ELSE 0)
\* number of a refined vertex, given numberings of edges and faces (records id -> set is easier to search than sets)
VNo(e, S, en(_), fn(_), c) ==
  CASE Cardinality(S) = 1 -> CHOOSE p \in Img(e, S) : TRUE
    [] Cardinality(S) = 2 -> en(Img(e, S))
    [] Cardinality(S) = 4 /\ e.k = HEX -> fn(Img(e, S))
    [] OTHER -> c
ChildrenOf(n, en(_), fn(_), c, d) == LET e == M[n]  T == ChildTab(e.k, d) IN [i \in 1..Len(T) |-> [k |-> e.k, v |-> [j \in 1..Len(T[i]) |-> VNo(e, T[i][j], en, fn, c)]]]
\* the same element up to the choice of its first corner: equal vertices and equally oriented sides
CanonS(s) == IF Len(s) <= 2 THEN s ELSE LET m == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i] <= s[j] IN [i \in 1..Len(s) |-> s[((i + m - 2) % Len(s)) + 1]]
Orient(e) == {CanonS(SideV(e, i)) : i \in 1..NSide(e.k)}
\* vertex positions, per coordinate
SumOf(f(_), S) == MapThenSumSet(f, S)
=============================================================================
