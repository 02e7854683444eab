------------------------------- MODULE DTet -------------------------------
(* Tetrahedra that keep the Delaunay condition while points are added.      *)
(* A mesh is a set of tetrahedra, each a set of four point numbers (from 0);*)
(* P is the sequence of integer positions.  Adding a point removes every    *)
(* tetrahedron whose circumscribed sphere contains it and joins the point   *)
(* to every face of the hole.                                               *)
EXTENDS Integers, Sequences, FiniteSets
D(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross3(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Det3(a, b, c) == Dot3(a, Cross3(b, c))
\* six times the volume of a tetrahedron, positive when d sees a, b, c turn counterclockwise from outside
Vol6(a, b, c, d) == Det3(D(b, a), D(c, a), D(d, a))
\* > 0: p inside the sphere through a, b, c, d; 0: on it; < 0: outside
InSphere(a, b, c, d, p) ==
  LET A == D(a, p)  B == D(b, p)  C == D(c, p)  E == D(d, p)
      x == (Dot3(E, E) * Det3(A, B, C)) - (Dot3(C, C) * Det3(A, B, E)) + (Dot3(B, B) * Det3(A, C, E)) - (Dot3(A, A) * Det3(B, C, E))
  IN IF Vol6(a, b, c, d) > 0 THEN -x ELSE x
Four(S) == CHOOSE q \in S \X S \X S \X S : q[1] < q[2] /\ q[2] < q[3] /\ q[3] < q[4]
At(P, i) == P[i+1]
Solid(P, S) == LET q == Four(S) IN Vol6(At(P, q[1]), At(P, q[2]), At(P, q[3]), At(P, q[4])) # 0
Ball(P, S, p) == LET q == Four(S) IN InSphere(At(P, q[1]), At(P, q[2]), At(P, q[3]), At(P, q[4]), p)
Faces(S) == {S \ {v} : v \in S}
Cavity(M, P, p) == {S \in M : Ball(P, S, p) > 0}
Hull(C) == {f \in UNION {Faces(S) : S \in C} : Cardinality({S \in C : f \subseteq S}) = 1}
Star(f, n) == f \cup {n}
Insert(M, P, p, n) == LET C == Cavity(M, P, p) IN (M \ C) \cup {Star(f, n) : f \in Hull(C)}
\* strictly inside the enclosing tetrahedron (points 0 to 3, positive volume)
Inside(P, p) == /\ Vol6(p, P[2], P[3], P[4]) > 0 /\ Vol6(P[1], p, P[3], P[4]) > 0
                /\ Vol6(P[1], P[2], p, P[4]) > 0 /\ Vol6(P[1], P[2], P[3], p) > 0
\* no tetrahedron whose sphere the point lies exactly on: the result is determined
Generic(M, P, p) == \A S \in M : Ball(P, S, p) # 0
=============================================================================
