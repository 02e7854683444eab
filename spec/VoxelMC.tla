------------------------------ MODULE VoxelMC ------------------------------
(* Histories of a voxel grid: cells set one by one, then grown and shrunk.   *)
EXTENDS Voxel, Json, IOUtils
VARIABLES d, S, S0, h
mvars == <<d, S, S0, h>>
Mode == IOEnv.VOX_MODE
DimSet == IF Mode = "mc" THEN {<<2,2,2>>, <<3,2,1>>, <<1,2,3>>, <<4,1,1>>} ELSE {<<2,2,2>>, <<3,2,1>>, <<1,3,2>>, <<2,1,4>>, <<1,1,3>>}
MaxOps == atoi(IOEnv.VOX_OPS)
MCInit == d \in DimSet /\ S \in SUBSET Cells(d) /\ h = <<>> /\ S0 = (IF Mode = "gen" THEN S ELSE {})
Op(name, T) == Len(h) < MaxOps /\ S' = T /\ h' = Append(h, name) /\ UNCHANGED <<d, S0>>
MCNext == Op(1, Grow(d, S)) \/ Op(2, Shrink(d, S))
MCSpec == MCInit /\ [][MCNext]_mvars
\* the boundary squares form a closed surface, consistently oriented outward
Closed == LET Q == {SideQuad(s) : s \in Bnd(S)}
              E == [e \in UNION {QEdges(q) : q \in Q} |-> Cardinality({q \in Q : e \in QEdges(q)})]
          IN \A e \in DOMAIN E : <<e[2], e[1]>> \in DOMAIN E /\ E[<<e[2], e[1]>>] = E[e]
Decoded == \A s \in Bnd(S) : QuadSide(SideQuad(s)) = s
\* the surface encloses exactly the filled cells (divergence of x)
Encloses == MapThenSumSet(LAMBDA s : s[2][1] * (s[1][1] + (IF s[2][1] = 1 THEN 1 ELSE 0)), {s \in Bnd(S) : s[2][1] # 0}) = Cardinality(S)
Duality == /\ S \subseteq Grow(d, S) /\ Shrink(d, S) \subseteq S
           /\ Shrink(d, Grow(d, S)) \cap S \subseteq Grow(d, S)
           /\ \A c \in Cells(d) : c \in Shrink(d, S) <=> (c \in S /\ \A n \in Nb6(c) : n \in S)
           /\ Grow(d, Shrink(d, S)) \subseteq S
Codec == /\ \A c \in Cells(d) : CellOf(d, Idx(d, c)) = c
         /\ {Idx(d, c) : c \in Cells(d)} = 0..(d[1]*d[2]*d[3]-1)
Geodesic == Mode = "mc" => \A s \in S : LET D == Geo(d, S, <<<<Idx(d, s), 0>>>>, 2) IN
             \A c \in Cells(d) : /\ c \notin S => D[c] = -1
                                 /\ \A n \in Nb6(c) \cap S : c \in S => (D[c] >= 0) = (D[n] >= 0) /\ D[c] <= D[n] + 2
Emit == Mode = "gen" /\ (Len(h) = MaxOps) => PrintT("@@" \o ToJson(<<d, [i \in 1..(d[1]*d[2]*d[3]) |-> IF CellOf(d, i-1) \in S0 THEN 1 ELSE 0], h>>))
=============================================================================
