------------------------------- MODULE PrimMC -------------------------------
EXTENDS Prim, TLC, Json, IOUtils
VARIABLES k, p
Mode == IOEnv.PRIM_MODE
B == atoi(IOEnv.PRIM_MAX)
Kinds1 == {"cube", "cubevox", "ico", "geod"}
Kinds2 == {"sphere", "cylo", "cylc", "disk", "torus", "grid2"}
Kinds3 == {"capsule", "hex"}
Code(x) == CHOOSE i \in 1..12 : <<"sphere","cylo","cylc","capsule","disk","torus","cube","cubevox","grid2","hex","ico","geod">>[i] = x
Init == \/ k \in Kinds1 /\ p \in {<<i>> : i \in 0..(IF k = "cube" THEN 2*B ELSE 1)}
        \/ k \in Kinds2 /\ p \in {<<i,j>> : i \in 0..B, j \in 0..B}
        \/ k \in Kinds3 /\ p \in {<<i,j,m>> : i \in 0..(IF k = "hex" THEN 4 ELSE B), j \in 0..4, m \in 0..4}
Next == FALSE /\ UNCHANGED <<k, p>>
Spec == Init /\ [][Next]_<<k, p>>
Surf == Mode = "mc" /\ Admissible(k, p) /\ k \notin {"hex", "ico", "geod"}
Manifold == Surf => LET P == Polys(k, p) IN EachEdgeOnce(P) /\ Cardinality(Rim(P)) = RimWant(k, p) /\ FansOK(P)
Euler == Surf => EulerNo(Polys(k, p)) = EulerWant(k)
Conn == Surf => LET P == Polys(k, p)  E == UNION {PEdges(q) : q \in P} IN ReachL(E, {(CHOOSE q \in P : TRUE)[1]}) = VertsOf(P)
Emit == Mode = "gen" /\ (Admissible(k, p) \/ k \in {"sphere", "cylc", "cube"}) => PrintT("@@" \o ToJson(<<Code(k)>> \o p))
=============================================================================
