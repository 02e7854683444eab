----------------------------- MODULE DelaunayMC -----------------------------
EXTENDS Delaunay, IOUtils, Json
VARIABLES F, xy, hist, aim
vars == <<F, xy, hist, aim>>
G == atoi(IOEnv.DL_G)  N == atoi(IOEnv.DL_N)  Mode == IOEnv.DL_MODE
Super == << <<-3*G, -G>>, <<4*G, -G>>, <<1, 6*G>> >>
Grid == (0..(G-1)) \X (0..(G-1))
Init == F = {<<0, 1, 2>>} /\ xy = Super /\ hist = <<>> /\ aim = <<>>
Clean == IsDelaunay(F, xy)
\* in generation mode only the order of insertion matters
Add == \E q \in Grid : /\ Len(hist) < N /\ aim = <<>> /\ q \notin {xy[i] : i \in 1..Len(xy)}
          /\ (IF Mode = "gen" THEN UNCHANGED F ELSE (Clean /\ F' = Inserted(F, xy, Len(xy), q)))
          /\ xy' = Append(xy, q) /\ hist' = Append(hist, q) /\ UNCHANGED aim
Restore == /\ Mode # "gen" /\ aim = <<>>
           /\ \E s \in Inner(F) : ~Legal(F, xy, s) /\ F' = Flipped(F, s)
           /\ UNCHANGED <<xy, hist, aim>>
Aim == /\ Mode = "force" /\ aim = <<>> /\ Clean /\ Len(hist) = N
       /\ \E a, b \in 3..(Len(xy)-1) : a < b /\ ~HasEdge(F, a, b) /\ ClearSeg(F, xy, a, b) /\ aim' = <<a, b>>
       /\ UNCHANGED <<F, xy, hist>>
Force == /\ aim # <<>>
         /\ \E s \in Crossing(F, xy, aim[1], aim[2]) : Convex(F, xy, s) /\ F' = Flipped(F, s)
         /\ UNCHANGED <<xy, hist, aim>>
Next == Add \/ Restore \/ Aim \/ Force
Spec == Init /\ [][Next]_vars
\* invariants
Oriented == \A t \in F : Orient(xy[t[1]+1], xy[t[2]+1], xy[t[3]+1]) > 0
Region == Mode # "gen" => /\ Oriented /\ Rim(F) = {<<0, 1>>, <<1, 2>>, <<2, 0>>}
                          /\ Cardinality(DEd(F)) = 3 * Cardinality(F)
                          /\ UNION {{t[1], t[2], t[3]} : t \in F} = 0..(Len(xy)-1)
FlipConvex == Mode # "gen" => \A s \in Inner(F) : ~Legal(F, xy, s) => Convex(F, xy, s)     \* an illegal edge can be flipped
EmptyCircles == (Mode # "gen" /\ aim = <<>> /\ Clean) =>       \* local legality is global: no point inside any circumcircle
   \A t \in F : \A i \in 0..(Len(xy)-1) : i \notin {t[1], t[2], t[3]} => InCircle(xy[t[1]+1], xy[t[2]+1], xy[t[3]+1], xy[i+1]) <= 0
ForceProgress == aim # <<>> => \/ HasEdge(F, aim[1], aim[2])
                               \/ \E s \in Crossing(F, xy, aim[1], aim[2]) : Convex(F, xy, s)
\* the lifted volume below the surface shrinks with every restoring flip: restoring terminates
RECURSIVE SumOver(_)
Lift(p) == p[1]*p[1] + p[2]*p[2]
Vol(t) == Orient(xy[t[1]+1], xy[t[2]+1], xy[t[3]+1]) * (Lift(xy[t[1]+1]) + Lift(xy[t[2]+1]) + Lift(xy[t[3]+1]))
SumOver(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Vol(t) + SumOver(S \ {t})
Shrinks == [][(xy' = xy /\ aim = <<>> /\ aim' = <<>>) => SumOver(F') < SumOver(F)]_F
Emit == (Mode = "gen" /\ Len(hist) = N) => PrintT("@@" \o ToJson(hist))
=============================================================================
