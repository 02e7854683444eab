---------------------------- MODULE ConvHullMC ----------------------------
(* Two incremental machines: the chains of the plane (points taken upwards,  *)
(* then downwards) and the growing polyhedron of space (a new point removes  *)
(* the faces it sees and is joined to the rim of what it saw).  At the end   *)
(* each is the hull of ConvHull; on the way each is a hull of the points     *)
(* taken so far.  Modes: mc2, mc3, gen2 (all subsets), gen3 (all sequences). *)
EXTENDS ConvHull, TLC, Json, IOUtils
Mode == IOEnv.CH_MODE
NX == atoi(IOEnv.CH_X)
NY == atoi(IOEnv.CH_Y)
NZ == atoi(IOEnv.CH_Z)
NP == atoi(IOEnv.CH_P)
VARIABLES pts,   \* the points so far (space: in the order taken)
          chain, surf, k, up
vars == <<pts, chain, surf, k, up>>
Grid2 == {<<x, y>> : x \in 0..NX-1, y \in 0..NY-1}
Grid3 == {<<x, y, z>> : x \in 0..NX-1, y \in 0..NY-1, z \in 0..NZ-1}
Less(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S \ {a} : Less(a, b) IN <<m>> \o Sorted(S \ {m})
RECURSIVE Put(_, _, _, _)
Put(P, c, keep, i) == IF Len(c) > keep /\ Area2(P[c[Len(c) - 1]], P[c[Len(c)]], P[i]) <= 0 THEN Put(P, SubSeq(c, 1, Len(c) - 1), keep, i) ELSE Append(c, i)
Init2 == /\ pts \in {Sorted(S) : S \in SUBSET Grid2} /\ chain = <<>> /\ k = 1 /\ up = 0 /\ surf = <<>>
Next2 == \/ up = 0 /\ k <= Len(pts) /\ chain' = Put(pts, chain, 1, k) /\ k' = k + 1 /\ UNCHANGED <<pts, surf, up>>
         \/ up = 0 /\ k > Len(pts) /\ up' = Len(chain) /\ k' = Len(pts) - 1 /\ UNCHANGED <<pts, surf, chain>>
            /\ Len(pts) > 0
         \/ up > 0 /\ k >= 1 /\ chain' = Put(pts, chain, up, k) /\ k' = k - 1 /\ UNCHANGED <<pts, surf, up>>
Corners2 == IF Len(pts) < 3 THEN [i \in 1..Len(pts) |-> i] ELSE SubSeq(chain, 1, Len(chain) - 1)
Hull2OK == (Mode = "mc2" /\ up > 0 /\ k = 0) => Hull2(pts, Corners2)
\* the chain turns left all the way
Turns == (Mode = "mc2") => \A i \in 1..Len(chain)-2 : (i + 1 # up) => Area2(pts[chain[i]], pts[chain[i+1]], pts[chain[i+2]]) > 0
---- \* space
Tetra(i, j, a, b) == LET s == Vol6(pts[i], pts[j], pts[a], pts[b]) IN
   IF s > 0 THEN << <<j, a, b>>, <<i, b, a>>, <<i, j, b>>, <<i, a, j>> >> ELSE << <<b, a, j>>, <<a, b, i>>, <<b, j, i>>, <<j, a, i>> >>
Sees(t, v) == {i \in 1..Len(t) : Vol6(pts[t[i][1]], pts[t[i][2]], pts[t[i][3]], v) > 0}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : TRUE IN <<m>> \o SetToSeq(S \ {m})
\* pn: the points including the new one; v: its number
Grow(t, pn, v) ==
  LET vis == {i \in 1..Len(t) : Vol6(pn[t[i][1]], pn[t[i][2]], pn[t[i][3]], pn[v]) > 0}
      seen == {Edge(t, x) : x \in {x \in DirEdges(t) : x[1] \in vis}}
      rim == {e \in seen : <<e[2], e[1]>> \notin seen}
  IN IF vis = {} THEN t ELSE SetToSeq({t[i] : i \in (1..Len(t)) \ vis} \cup {<<v, e[1], e[2]>> : e \in rim})
Init3 == pts = <<>> /\ chain = <<>> /\ k = 0 /\ up = 0 /\ surf = <<>>
RECURSIVE GrowAll(_, _, _)
GrowAll(t, pn, vs) == IF vs = <<>> THEN t ELSE GrowAll(Grow(t, pn, Head(vs)), pn, Tail(vs))
Take3(v) == LET pn == Append(pts, v)
                n == Len(pn) IN
   /\ pts' = pn /\ UNCHANGED <<chain, k, up>>
   /\ (surf' = IF surf # <<>> THEN Grow(surf, pn, n)
        ELSE IF Flat3(Places(pn)) THEN <<>>
        ELSE LET A == {p \in (1..n) \X (1..n) \X (1..n) \X (1..n) : Vol6(pn[p[1]], pn[p[2]], pn[p[3]], pn[p[4]]) > 0}
                 q == CHOOSE p \in A : TRUE
             IN GrowAll(<< <<q[2], q[3], q[4]>>, <<q[1], q[4], q[3]>>, <<q[1], q[2], q[4]>>, <<q[1], q[3], q[2]>> >>, pn,
                        SetToSeq((1..n) \ {q[1], q[2], q[3], q[4]})))
Next3 == Len(pts) < NP /\ \E v \in Grid3 : (NZ = 0 \/ v \notin Places(pts)) /\ Take3(v)
Hull3OK == (Mode = "mc3") => Hull3(pts, surf)
GNext3 == Len(pts) < NP /\ \E v \in Grid3 : v \notin Places(pts) /\ pts' = Append(pts, v) /\ UNCHANGED <<chain, surf, k, up>>
Flatten(P) == [i \in 1..(2 * Len(P)) |-> P[(i + 1) \div 2][((i + 1) % 2) + 1]]
Flatten3(P) == [i \in 1..(3 * Len(P)) |-> P[(i + 2) \div 3][((i + 2) % 3) + 1]]
Emit == /\ (Mode = "gen2") => PrintT("@@" \o ToJson(<<2>> \o Flatten(pts)))
        /\ (Mode = "gen3" /\ Len(pts) = NP) => PrintT("@@" \o ToJson(<<3>> \o Flatten3(pts)))
Init == IF Mode \in {"mc2", "gen2"} THEN Init2 ELSE Init3
Next == IF Mode = "mc2" THEN Next2 ELSE IF Mode = "mc3" THEN Next3 ELSE IF Mode = "gen3" THEN GNext3 ELSE FALSE /\ UNCHANGED vars
MCSpec == Init /\ [][Next]_vars
=============================================================================
