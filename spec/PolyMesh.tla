------------------------------ MODULE PolyMesh ------------------------------
(* C02 design: a mesher as a state machine.  A chain of lattice points grows *)
(* without touching itself and is closed to an outline; the outline is then  *)
(* cut into faces one ear at a time, in any order.  Invariants: what is left *)
(* plus the faces cut so far always cover exactly the outline, and every run *)
(* ends with a triangulation that has the outline as its boundary.           *)
EXTENDS Geo2, TLC, Json, IOUtils, FiniteSetsExt
VARIABLES chain, phase, rest, faces
vars == <<chain, phase, rest, faces>>

W == atoi(IOEnv.PM_W)   H == atoi(IOEnv.PM_H)   MaxN == atoi(IOEnv.PM_N)
Mode == IOEnv.PM_MODE        \* "gen": outlines only;  "mesh": cut every outline in every order
Pts == (0..(W-1)) \X (0..(H-1))
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

SegFree(c, p) == \* new segment from the end of chain c to p touches nothing but its start
  LET n == Len(c) IN
  /\ \A i \in 1..n : c[i] # p
  /\ \A i \in 1..(n-2) : ~SegMeet(c[i], c[i+1], c[n], p)
  /\ n >= 2 => ~OnSeg(c[n-1], c[n], p) /\ ~OnSeg(c[n], p, c[n-1])
Init == chain \in {<<p>> : p \in Pts} /\ phase = "open" /\ rest = <<>> /\ faces = <<>>
Grow(p) == /\ phase = "open" /\ Len(chain) < MaxN
           /\ Before(chain[1], p)      \* the smallest point comes first: one representative per cycle and direction
           /\ SegFree(chain, p)
           /\ chain' = Append(chain, p) /\ UNCHANGED <<phase, rest, faces>>
Close == /\ phase = "open" /\ Len(chain) >= 3 /\ SimpleLoop(chain)
         /\ phase' = "closed"
         /\ LET n == Len(chain)
                ccw == Area2(chain) > 0
            IN rest' = [i \in 1..n |-> IF ccw THEN i-1 ELSE n-i]     \* orientation is repaired
         /\ UNCHANGED <<chain, faces>>
Pt(k) == chain[k+1]
IsEar(r, i) == \* cutting corner i of r leaves a simple loop to its left
  LET n == Len(r)  a == r[((i + n - 2) % n) + 1]  b == r[i]  c == r[(i % n) + 1]
  IN /\ Orient(Pt(a), Pt(b), Pt(c)) > 0
     /\ \A j \in 1..n : r[j] \notin {a, b, c} =>
          ~(/\ Orient(Pt(a), Pt(b), Pt(r[j])) >= 0 /\ Orient(Pt(b), Pt(c), Pt(r[j])) >= 0 /\ Orient(Pt(c), Pt(a), Pt(r[j])) >= 0)
Cut(i) == /\ Mode = "mesh" /\ phase = "closed" /\ Len(rest) > 3 /\ IsEar(rest, i)
          /\ LET n == Len(rest)  a == rest[((i + n - 2) % n) + 1]  c == rest[(i % n) + 1]
             IN faces' = Append(faces, <<a, rest[i], c>>)
          /\ rest' = SubSeq(rest, 1, i-1) \o SubSeq(rest, i+1, Len(rest))
          /\ UNCHANGED <<chain, phase>>
Finish == /\ Mode = "mesh" /\ phase = "closed" /\ Len(rest) = 3
          /\ faces' = Append(faces, rest) /\ rest' = <<>> /\ phase' = "done" /\ UNCHANGED chain
Next == (\E p \in Pts : Grow(p)) \/ Close \/ (\E i \in 1..Len(rest) : Cut(i)) \/ Finish
Spec == Init /\ [][Next]_vars

N == Len(chain)
Outline == IF Area2(chain) > 0 THEN [i \in 1..N |-> i-1] ELSE [i \in 1..N |-> N-i]
RECURSIVE SumArea(_, _)
SumArea(T, i) == IF i > Len(T) THEN 0 ELSE Orient(Pt(T[i][1]), Pt(T[i][2]), Pt(T[i][3])) + SumArea(T, i+1)
Abs(x) == IF x < 0 THEN -x ELSE x
RestPts == [i \in 1..Len(rest) |-> Pt(rest[i])]
AreaKept == phase # "open" => SumArea(faces, 1) + (IF rest = <<>> THEN 0 ELSE Area2(RestPts)) = Abs(Area2(chain))
Progress == (Mode = "mesh" /\ phase = "closed" /\ Len(rest) > 3) => \E i \in 1..Len(rest) : IsEar(rest, i)
\* the oracle used on the implementation agrees with counting the faces over sample points
Sample == {<<6*x+u, 6*y+v>> : x \in 0..(W-1), y \in 0..(H-1), u \in {1, 3, 5}, v \in {2}}
Scale(P) == [i \in 1..Len(P) |-> <<6*P[i][1], 6*P[i][2]>>]
FaceOver(t, q) == LET a == <<6*Pt(t[1])[1], 6*Pt(t[1])[2]>>  b == <<6*Pt(t[2])[1], 6*Pt(t[2])[2]>>  c == <<6*Pt(t[3])[1], 6*Pt(t[3])[2]>>
                  IN Orient(a, b, q) > 0 /\ Orient(b, c, q) > 0 /\ Orient(c, a, q) > 0
OnEdge(t, q) == LET S == Scale([i \in 1..3 |-> Pt(t[i])]) IN OnLoop(S, q)
Done == phase = "done" =>
  /\ Len(faces) = N - 2
  /\ Covers(faces, chain, <<Outline>>)
  /\ \A q \in Sample : (\A i \in 1..Len(faces) : ~OnEdge(faces[i], q)) =>
       Cardinality({i \in 1..Len(faces) : FaceOver(faces[i], q)}) = (IF InsideLoop(Scale(chain), q) THEN 1 ELSE 0)
Emit == (Mode = "gen" /\ phase = "closed") => PrintT("@@" \o ToJson(chain))
=============================================================================
