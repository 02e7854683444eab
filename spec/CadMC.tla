-------------------------------- MODULE CadMC --------------------------------
EXTENDS Cad, TLC, Json, IOUtils
VARIABLES hist
Depth == atoi(IOEnv.CAD_DEPTH)
Mode == IOEnv.CAD_MODE
Poly(n) == IF n = 3 THEN << <<0, 0>>, <<64, 0>>, <<0, 64>> >> ELSE << <<0, 0>>, <<64, 0>>, <<64, 64>>, <<0, 64>> >>
Mid(e) == LET a == pos[E[e+1][1]+1]  b == pos[E[e+1][2]+1] IN <<(a[1]+b[1]) \div 2, (a[2]+b[2]) \div 2>>
Init == CInit /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E n \in {3, 4} : Cardinality({i \in 1..Len(hist) : hist[i][1] = 1}) < 3 /\ AddPolygon(Poly(n)) /\ hist' = Append(hist, <<1, n>>)
           \/ \E e \in 0..(Len(E)-1) : AddVtxEdge(e, Mid(e)) /\ hist' = Append(hist, <<2, e>>)
           \/ \E f \in 0..(Len(F)-1) : AddVtxFace(f, <<1, 1>>) /\ hist' = Append(hist, <<3, f>>)
           \/ AddVtxEdge(Len(E), <<0, 0>>) /\ hist' = Append(hist, <<2, Len(E)>>)
           \/ AddVtxFace(Len(F), <<0, 0>>) /\ hist' = Append(hist, <<3, Len(F)>>)
MCSpec == Init /\ [][Next]_<<cvars, hist>>
Inv == Sketch
\* splitting a straight edge keeps every outline; other faces are not touched
AreaKept == [][ Len(F') = Len(F) => \A f \in 1..Len(F) : Area2(OuterPts(f)') = Area2(OuterPts(f)) ]_cvars
Emit == (Mode = "gen" /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
