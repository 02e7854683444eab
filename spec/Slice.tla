------------------------------- MODULE Slice -------------------------------
(* C14: cross sections of a triangulated surface.  T is a sequence of        *)
(* triangles (triples of vertices 0..), V[v+1] the level of vertex v.  A     *)
(* vertex on the height counts as above it.                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt
Up(V, v, h) == V[v+1] >= h
Cut(T, V, t, h) == \E i \in 1..3, j \in 1..3 : Up(V, T[t][i], h) /\ ~Up(V, T[t][j], h)
\* directed sides of a triangle, and those the section leaves and enters by
\* (what is above lies on the left of the direction of travel)
Sides(T, t) == {<<T[t][1], T[t][2]>>, <<T[t][2], T[t][3]>>, <<T[t][3], T[t][1]>>}
OutS(T, V, t, h) == {s \in Sides(T, t) : ~Up(V, s[1], h) /\ Up(V, s[2], h)}
InS(T, V, t, h) == {s \in Sides(T, t) : Up(V, s[1], h) /\ ~Up(V, s[2], h)}
Across(T, s) == {t \in 1..Len(T) : <<s[2], s[1]>> \in Sides(T, t)}
NextT(T, V, t, h) == UNION {Across(T, s) : s \in OutS(T, V, t, h)}
\* cut triangles on chains that end at a rim
RECURSIVE Chain(_, _, _, _)
Chain(T, V, h, S) == LET R == S \cup {t \in 1..Len(T) : Cut(T, V, t, h) /\ (NextT(T, V, t, h) \cap S # {})} IN IF R = S THEN S ELSE Chain(T, V, h, R)
OpenT(T, V, h) == LET A == {t \in 1..Len(T) : Cut(T, V, t, h)}
                      E == {t \in A : NextT(T, V, t, h) = {}}
                      B == {t \in A : \E s \in InS(T, V, t, h) : Across(T, s) = {}}
                  IN Chain(T, V, h, E) \cup B
=============================================================================
