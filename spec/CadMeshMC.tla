------------------------------ MODULE CadMeshMC ------------------------------
EXTENDS CadMesh, TLC, Json, IOUtils
VARIABLES hist, nd
Depth == atoi(IOEnv.CAD_DEPTH)
Mode == IOEnv.CAD_MODE
Divs == {1, 2, 3}
Poly(n) == IF n = 3 THEN << <<0, 0>>, <<64, 0>>, <<0, 64>> >> ELSE << <<0, 0>>, <<64, 0>>, <<64, 64>>, <<0, 64>> >>
Init == CInit /\ hist = <<>> /\ nd = <<>>
Sk(op) == nd = <<>> /\ Len(hist) < Depth /\ hist' = Append(hist, op) /\ UNCHANGED nd
Next == \/ \E n \in {3, 4} : Len(F) < 2 /\ AddPolygon(Poly(n)) /\ Sk(<<1, n>>)
        \/ \E e \in 0..(Len(E)-1) : AddVtxEdge(e, <<1, 1>>) /\ Sk(<<2, e>>)
        \/ \E f \in 0..(Len(F)-1) : AddVtxFace(f, <<1, 1>>) /\ Sk(<<3, f>>)
        \/ /\ nd = <<>> /\ Len(hist) = Depth /\ E # <<>>
           \* divisions: one edge different from all others
           /\ \E e \in 1..NE, a, b \in Divs : nd' = [i \in 1..NE |-> IF i = e THEN a ELSE b]
           /\ UNCHANGED <<cvars, hist>>
MCSpec == Init /\ [][Next]_<<cvars, hist, nd>>
Meshed == nd # <<>>
Inv == Sketch
\* every boundary point lies on exactly one entity; edge points appear in exactly one chain
Owners == Meshed => \A p \in nv..(NB(nd)-1) : Cardinality({e \in 0..(NE-1) : p \in SetOf(EdgePts(nd, e))}) = 1
\* the rim of a face is a union of closed cycles: every point on it has one way in and one way out
RimClosed == Meshed => \A f \in 1..Len(F) : LET R == FaceRim(nd, f) IN
   /\ {s[1] : s \in R} = {s[2] : s \in R} /\ Cardinality({s[1] : s \in R}) = Cardinality(R)
   /\ {s[1] : s \in R} \subseteq OnFaceB(nd, f)
Disjoint == Meshed => \A f, g \in 1..Len(F) : f # g => OnFaceB(nd, f) \cap OnFaceB(nd, g) = {}
Emit == (Mode = "gen" /\ Meshed) => PrintT("@@" \o ToJson([h |-> hist, nd |-> nd]))
=============================================================================
