------------------------------- MODULE DTriMC -------------------------------
(* Exhaustive design check of DTri and enumeration of its histories.        *)
EXTENDS DTri, Json, IOUtils
VARIABLES hist, seedname

Seeds == [
  tetra   |-> {<<0,1,2>>, <<0,3,1>>, <<0,2,3>>, <<1,3,2>>},
  tri     |-> {<<0,1,2>>},
  square  |-> {<<0,1,2>>, <<0,2,3>>},
  iso     |-> {<<0,1,2>>, <<3,4,5>>, <<6,7,8>>, <<6,8,9>>},
  fan5    |-> {<<0,1,2>>, <<0,2,3>>, <<0,3,4>>, <<0,4,5>>, <<0,5,1>>},
  octa    |-> {<<0,1,2>>, <<0,2,3>>, <<0,3,4>>, <<0,4,1>>, <<1,5,2>>, <<2,5,3>>, <<3,5,4>>, <<1,4,5>>},
  annulus |-> {<<0,1,4>>, <<0,4,3>>, <<1,2,5>>, <<1,5,4>>, <<0,3,2>>, <<2,3,5>>},
  torus7  |-> UNION {{Norm(<<i, (i+1)%7, (i+3)%7>>), Norm(<<i, (i+3)%7, (i+2)%7>>)} : i \in 0..6}
]
SeedNames == {IOEnv.DTRI_SEED}
Depth == atoi(IOEnv.DTRI_DEPTH)

MCInit == \E n \in SeedNames : seedname = n /\ F = Seeds[n] /\ NV = Cardinality(VertsOf(Seeds[n])) /\ hist = <<>>

\* refused attempts are recorded too; they stutter on the mesh and end the history
Refused(op) == UNCHANGED <<F, NV, seedname>> /\ hist' = Append(Append(hist, op), <<0>>)
Open == IF hist = <<>> THEN TRUE ELSE hist[Len(hist)] # <<0>>
MCNext ==
  /\ Open /\ Len(hist) < Depth
  /\ \/ \E t \in F : InsertFace(t) /\ hist' = Append(hist, <<1, t[1], t[2], t[3]>>) /\ UNCHANGED seedname
     \/ \E e \in AllD(F) : e[1] < e[2] /\ InsertEdge(e[1], e[2]) /\ hist' = Append(hist, <<2, e[1], e[2]>>) /\ UNCHANGED seedname
     \/ \E e \in AllD(F) : e[1] < e[2] /\ Flip(e[1], e[2]) /\ hist' = Append(hist, <<3, e[1], e[2]>>) /\ UNCHANGED seedname
     \/ \E e \in AllD(F) : Collapse(e[1], e[2]) /\ hist' = Append(hist, <<4, e[1], e[2]>>) /\ UNCHANGED seedname
     \/ \E t \in F : DeleteFace(t) /\ hist' = Append(hist, <<5, t[1], t[2], t[3]>>) /\ UNCHANGED seedname
     \/ \E e \in BoundaryD(F) : Refused(<<3, e[1], e[2]>>)
     \/ \E e \in AllD(F) \ BoundaryD(F) : ~ColMustAccept(F, e[1], e[2]) /\ Refused(<<4, e[1], e[2]>>)

Inv == /\ Manifold(F)
       /\ VertsOf(F) \subseteq 0..(NV-1)
\* the surface is the same surface: Euler number and boundary only change by deleting a face
SameSurface == [][ \/ Cardinality(F') = Cardinality(F) - 1
                   \/ Euler(F') = Euler(F) /\ BoundaryD(F') = BoundaryD(F) ]_<<F, NV, hist, seedname>>
\* the library's documented shape of each edit
Counts == [][ LET n == Cardinality(F) m == Cardinality(F')
              IN m \in {n, n + 2, n - 2, n - 1} /\ (NV' = NV + 1 => m = n + 2) ]_<<F, NV, hist, seedname>>
Emit == (Len(hist) >= Depth \/ ~Open) =>
         PrintT("@@" \o ToJson([n |-> seedname, h |-> hist]))
MCSpec == MCInit /\ [][MCNext]_<<F, NV, hist, seedname>>
=============================================================================
