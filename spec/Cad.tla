--------------------------------- MODULE Cad ---------------------------------
(* C04: a CAD sketch.  Vertices are 0..nv-1; E is the sequence of directed   *)
(* edges <<root, end>>; L the loops, each either one isolated vertex          *)
(* ([v |-> vertex, es |-> <<>>]) or a closed chain of edge uses <<edge, dir>>; *)
(* F the faces, each a sequence of loops (outer loop first).  pos holds the    *)
(* vertex positions.  Indices of E, L, F start at 0 as in the library.       *)
EXTENDS Geo2
VARIABLES nv, E, L, F, pos
cvars == <<nv, E, L, F, pos>>

CInit == nv = 0 /\ E = <<>> /\ L = <<>> /\ F = <<>> /\ pos = <<>>
AddPolygon(P) ==
  LET n == Len(P) IN
  /\ nv' = nv + n /\ pos' = pos \o P
  /\ E' = E \o [i \in 1..n |-> <<nv + i - 1, nv + (i % n)>>]
  /\ L' = Append(L, [v |-> -1, es |-> [i \in 1..n |-> <<Len(E) + i - 1, 1>>]])
  /\ F' = Append(F, <<Len(L)>>)
AddVtxFace(f, q) ==
  IF f \in 0..(Len(F)-1)
  THEN /\ nv' = nv + 1 /\ pos' = Append(pos, q) /\ UNCHANGED E
       /\ L' = Append(L, [v |-> nv, es |-> <<>>])
       /\ F' = [F EXCEPT ![f+1] = Append(@, Len(L))]
  ELSE UNCHANGED cvars
\* the old edge keeps its root, the new one its end; the new edge follows the old one in its loop
SplitUse(es, e, en) ==
  IF \E i \in 1..Len(es) : es[i][1] = e
  THEN LET i == CHOOSE i \in 1..Len(es) : es[i][1] = e IN SubSeq(es, 1, i) \o << <<en, 1>> >> \o SubSeq(es, i+1, Len(es))
  ELSE es
AddVtxEdge(e, q) ==
  IF e \in 0..(Len(E)-1)
  THEN /\ nv' = nv + 1 /\ pos' = Append(pos, q)
       /\ E' = Append([E EXCEPT ![e+1] = <<@[1], nv>>], <<nv, E[e+1][2]>>)
       /\ L' = [k \in 1..Len(L) |-> [L[k] EXCEPT !.es = SplitUse(@, e, Len(E))]]
       /\ UNCHANGED F
  ELSE UNCHANGED cvars
Move(V, d) == /\ pos' = [i \in 1..nv |-> IF i-1 \in V THEN <<pos[i][1] + d[1], pos[i][2] + d[2]>> ELSE pos[i]]
              /\ UNCHANGED <<nv, E, L, F>>

From(u) == IF u[2] = 1 THEN E[u[1]+1][1] ELSE E[u[1]+1][2]
To(u) == IF u[2] = 1 THEN E[u[1]+1][2] ELSE E[u[1]+1][1]
LoopV(k) == IF L[k].v # -1 THEN <<L[k].v>> ELSE [i \in 1..Len(L[k].es) |-> From(L[k].es[i])]
FaceLoops(f) == {F[f][i] + 1 : i \in 1..Len(F[f])}
SetOf(s) == {s[i] : i \in 1..Len(s)}
FaceV(f) == UNION {SetOf(LoopV(k)) : k \in FaceLoops(f)}
FaceE(f) == UNION {SetOf(L[k].es) : k \in FaceLoops(f)}
OuterPts(f) == LET s == LoopV(F[f][1] + 1) IN [i \in 1..Len(s) |-> pos[s[i]+1]]

\* what makes it a sketch
Sketch ==
  /\ Len(pos) = nv
  /\ \A i \in 1..Len(E) : E[i][1] \in 0..(nv-1) /\ E[i][2] \in 0..(nv-1) /\ E[i][1] # E[i][2]
  /\ \A k \in 1..Len(L) : LET es == L[k].es  n == Len(es) IN
       /\ (L[k].v # -1) = (n = 0)
       /\ \A i \in 1..n : To(es[i]) = From(es[(i % n) + 1])
       /\ \A i, j \in 1..n : i # j => es[i][1] # es[j][1]
  /\ \A e \in 0..(Len(E)-1) : Cardinality({k \in 1..Len(L) : \E i \in 1..Len(L[k].es) : L[k].es[i][1] = e}) = 1
  /\ \A v \in 0..(nv-1) : Cardinality({k \in 1..Len(L) : v \in SetOf(LoopV(k))}) = 1
  /\ \A k \in 1..Len(L) : Cardinality({f \in 1..Len(F) : k \in FaceLoops(f)}) = 1
  /\ \A f \in 1..Len(F) : F[f] # <<>> /\ L[F[f][1]+1].v = -1
  /\ nv = Len(E) + Cardinality({k \in 1..Len(L) : L[k].v # -1})
=============================================================================
