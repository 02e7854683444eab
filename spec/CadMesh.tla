------------------------------- MODULE CadMesh -------------------------------
(* C05: meshing a sketch.  Mesh points 0..nv-1 are the CAD vertices; the     *)
(* points of edge e follow, nd[e]-1 of them; then the points inside faces.   *)
(* flag[p] says which entity a point lies on: v, nv+e, or nv+|E|+f.          *)
EXTENDS Cad
NE == Len(E)
RECURSIVE Before(_, _)
Before(nd, e) == IF e = 0 THEN 0 ELSE Before(nd, e-1) + nd[e] - 1          \* edge points of edges 0..e-1
EdgePts(nd, e) == [i \in 1..(nd[e+1]-1) |-> nv + Before(nd, e) + i - 1]
NB(nd) == nv + Before(nd, NE)                                              \* points on vertices and edges
Chain(nd, e) == <<E[e+1][1]>> \o EdgePts(nd, e) \o <<E[e+1][2]>>
ChainSegs(c) == {<<c[i], c[i+1]>> : i \in 1..(Len(c)-1)}
FaceRim(nd, f) == UNION {ChainSegs(Chain(nd, u[1])) : u \in FaceE(f)}
FlagOf(nd, p) == IF p < nv THEN p ELSE nv + (CHOOSE e \in 0..(NE-1) : \E i \in 1..(nd[e+1]-1) : EdgePts(nd, e)[i] = p)
\* points lying on a selection (closed entities: an edge has its end points, a face its rim and isolated vertices)
OnEdges(nd, S) == UNION {SetOf(Chain(nd, e)) : e \in S}
OnFaceB(nd, f) == FaceV(f) \cup OnEdges(nd, {u[1] : u \in FaceE(f)})
=============================================================================
