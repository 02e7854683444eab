----------------------------- MODULE GeoMeasMC -----------------------------
(* A solid grows by gluing lattice tetrahedra to its surface.  At every     *)
(* step the volume, the centre of gravity and the products of inertia taken *)
(* over the tetrahedra and over the surface agree, the surface closes, and  *)
(* moving the solid moves the moments as it must.                           *)
EXTENDS GeoMeas, TLC, IOUtils, Json
VARIABLES P, K
vars == <<P, K>>
N == IF IOEnv.GM_SIZE = "big" THEN 4 ELSE 3
Lat == IF IOEnv.GM_SIZE = "wide" THEN (0..1) \X (0..2) \X (-1..1) ELSE (0..1) \X (0..1) \X (0..2)
Seeds == { << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>, << <<0,0,0>>, <<0,1,1>>, <<1,0,1>>, <<1,1,0>> >>, << <<1,1,0>>, <<0,0,0>>, <<1,0,1>>, <<0,0,1>> >> }
Init == P \in {s \in Seeds : Vol6(s) > 0} /\ K = << <<0, 1, 2, 3>> >>
Ix(p) == CHOOSE i \in 1..Len(P) : P[i] = p
Glue == /\ Len(K) < N
        /\ \E a \in Outer(K), p \in Lat :
            LET f == FaceV(K, a)
                Q == IF p \in {P[i] : i \in 1..Len(P)} THEN P ELSE Append(P, p)
                i == CHOOSE i \in 1..Len(Q) : Q[i] = p
                t == <<f[1], f[2], f[3], i - 1>>
                L == Append(K, t)
            IN /\ Vol6(At(Q, t)) > 0
               /\ \A b \in Faces(K), x \in 1..4 : FaceV(L, <<Len(L), x>>) \notin Rot(FaceV(K, b))
               /\ P' = Q /\ K' = L
Spec == Init /\ [][Glue]_vars
SurfL == LET S == Outer(K) RECURSIVE F(_) F(X) == IF X = {} THEN << >> ELSE LET a == CHOOSE a \in X : TRUE IN <<FaceV(K, a)>> \o F(X \ {a}) IN F(S)
Surf == TLCEval(SurfL)
Volumes == TetVol6(P, K) = SurfVol6(P, Surf)
Moments == TetMom24(P, K) = SurfMom24(P, Surf)
Closed == SurfArea(P, Surf) = Zero
Inertia == \A i, j \in 1..3 : SumI(LAMBDA t : Tet120(At(P, K[t]), i, j), 1, Len(K)) = SumI(LAMBDA t : TriSolid120(At(P, Surf[t]), i, j), 1, Len(Surf))
Moved == LET v == <<2, -1, 3>> Q == [i \in 1..Len(P) |-> Add(P[i], v)] IN
  /\ SurfVol6(Q, Surf) = SurfVol6(P, Surf)
  /\ SurfMom24(Q, Surf) = Add(SurfMom24(P, Surf), Mul(4 * SurfVol6(P, Surf), v))
Inside == \A i \in 1..3 : LET m == TetMom24(P, K)[i]  v == 4 * TetVol6(P, K) IN
  v * Least({P[k][i] : k \in 1..Len(P)}) <= m /\ m <= v * Most({P[k][i] : k \in 1..Len(P)})
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Flat(Tail(s))
Emit == IOEnv.GM_GEN = "1" => PrintT("@@" \o ToJson(<<Len(P), Len(K)>> \o Flat(P) \o Flat(K)))
=============================================================================
