------------------------------ MODULE GeoMeas ------------------------------
(* Measures of meshes in exact arithmetic: corners are integer points, so   *)
(* six times a volume, twice a flat area, the moments and the products of   *)
(* inertia are integers; twice the area of a triangle in space is the root  *)
(* of an integer and the triangle is "nice" when that root is an integer.   *)
(* Element indices start at 0.                                              *)
EXTENDS Integers, Sequences, FiniteSets
Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Add(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Mul(k, a) == [i \in 1..Len(a) |-> k * a[i]]
Dot(a, b) == IF Len(a) = 2 THEN a[1]*b[1] + a[2]*b[2] ELSE a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Sq(a) == Dot(a, a)
Crs(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Abs(x) == IF x < 0 THEN -x ELSE x
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumI(_, _, _)
SumI(f(_), i, n) == IF i > n THEN 0 ELSE f(i) + SumI(f, i + 1, n)
Zero == <<0, 0, 0>>
RECURSIVE SumV(_, _, _)
SumV(f(_), i, n) == IF i > n THEN Zero ELSE Add(f(i), SumV(f, i + 1, n))
\* corners of an element
At(P, e) == [k \in 1..Len(e) |-> P[e[k] + 1]]
Det(a, b, c) == Dot(a, Crs(b, c))
Vol6(q) == Det(Sub(q[2], q[1]), Sub(q[3], q[1]), Sub(q[4], q[1]))
Nrm(q) == Crs(Sub(q[2], q[1]), Sub(q[3], q[1]))
Area2F(q) == (q[2][1] - q[1][1]) * (q[3][2] - q[1][2]) - (q[3][1] - q[1][1]) * (q[2][2] - q[1][2])
\* the integer root (-1: none)
Root(n) == LET S == {k \in 0..100 : k * k = n} IN IF S = {} THEN -1 ELSE Least(S)
Area2(q) == Root(Sq(Nrm(q)))
Nice(q) == Area2(q) >= 0
Length(a, b) == Root(Sq(Sub(b, a)))
Corner(q) == SumV(LAMBDA k : q[k], 1, Len(q))
\* ---- solids: six times the volume and 24 times the moment, from tetrahedra and from the surface
TetVol6(P, K) == SumI(LAMBDA t : Vol6(At(P, K[t])), 1, Len(K))
TetMom24(P, K) == SumV(LAMBDA t : Mul(Vol6(At(P, K[t])), Corner(At(P, K[t]))), 1, Len(K))
SurfDet(q) == Det(q[1], q[2], q[3])
SurfVol6(P, T) == SumI(LAMBDA t : SurfDet(At(P, T[t])), 1, Len(T))
SurfMom24(P, T) == SumV(LAMBDA t : Mul(SurfDet(At(P, T[t])), Corner(At(P, T[t]))), 1, Len(T))
SurfArea(P, T) == SumV(LAMBDA t : Nrm(At(P, T[t])), 1, Len(T))
\* products of inertia about the origin times 120 (solid over the origin) and times 24 (triangle): entry i, j
Quad(q, i, j) == SumI(LAMBDA k : q[k][i] * q[k][j], 1, Len(q)) + Corner(q)[i] * Corner(q)[j]
Inert(q, i, j) == IF i = j THEN Quad(q, 1, 1) + Quad(q, 2, 2) + Quad(q, 3, 3) - Quad(q, i, i) ELSE -Quad(q, i, j)
TriSolid120(q, i, j) == SurfDet(q) * Inert(q, i, j)
\* the same of a tetrahedron anywhere: Quad over four corners
Tet120(q, i, j) == Vol6(q) * Inert(q, i, j)
\* the surface of a list of tetrahedra: faces whose opposite does not occur
FaceOf == << <<2, 3, 4>>, <<1, 4, 3>>, <<1, 2, 4>>, <<1, 3, 2>> >>
Faces(K) == {<<t, f>> : t \in 1..Len(K), f \in 1..4}
FaceV(K, a) == [k \in 1..3 |-> K[a[1]][FaceOf[a[2]][k]]]
Rot(f) == {f, <<f[2], f[3], f[1]>>, <<f[3], f[1], f[2]>>}
Flip(f) == <<f[1], f[3], f[2]>>
Outer(K) == {a \in Faces(K) : ~\E b \in Faces(K) : Flip(FaceV(K, b)) \in Rot(FaceV(K, a))}
=============================================================================
