----------------------------- MODULE GeoNearMC -----------------------------
(* Every point against every edge or triangle (degenerate ones included) of *)
(* a small lattice.  The search walks: it starts at a corner and, as long   *)
(* as another candidate (corner, foot on an edge, foot on the plane, inside *)
(* the set) is closer, moves there.  It must end at the only candidate that *)
(* passes the test Nearest, and no sampled point of the set may be closer.  *)
EXTENDS GeoNear, TLC, IOUtils, Json
VARIABLES p, q, x, steps
vars == <<p, q, x, steps>>
Mode == IOEnv.GN_MODE  Size == IOEnv.GN_SIZE
Lat == IF Size = "big" THEN (0..1) \X (0..2) \X (0..1) ELSE (0..1) \X (0..1) \X (0..1)
Pts == IF Size = "big" THEN {-1, 0, 1, 3} \X {-1, 1, 2} \X {-1, 0, 2} ELSE {-1, 0, 2} \X {-1, 1, 2} \X {0, 2}
\* a corner order that is the least of its rotations is enough for the search; all orders are generated
Corners == IF Mode = "edge" THEN Lat \X Lat ELSE Lat \X Lat \X Lat
Foot(a, b) == LET u == Sub(b, a) n == Sq(u) IN <<Sum2(Mul(n, a), Mul(Dot(Sub(p, a), u), u)), n>>
Cands == {<<q[i], 1>> : i \in 1..Len(q)}
  \cup {Foot(q[e[1]], q[e[2]]) : e \in {e \in (1..Len(q)) \X (1..Len(q)) : e[1] < e[2] /\ q[e[1]] # q[e[2]]}}
  \cup (IF Len(q) = 3 /\ Sq(Nrm(q)) > 0
        THEN LET N == Nrm(q) n == Sq(N) IN {<<Sub(Mul(n, p), Mul(Dot(N, Sub(p, q[1])), N)), n>>} ELSE {})
In == {y \in Cands : InHull(y[1], y[2], q)}
D2(y) == <<Sq(Sub(Mul(y[2], p), y[1])), y[2] * y[2]>>
Less(y, z) == ~Leq(D2(z), D2(y))
Same(y, z) == Mul(z[2], y[1]) = Mul(y[2], z[1])
Init == p \in Pts /\ q \in Corners /\ x = <<q[1], 1>> /\ steps = 0
Closer == \E y \in In : Less(y, x) /\ x' = y /\ steps' = steps + 1 /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Closer]_vars
Done == \A y \in In : ~Less(y, x)
EndsNearest == Done => Nearest(p, x[1], x[2], q)
OnlyThere == steps > 0 \/ (\A y, z \in In : Nearest(p, y[1], y[2], q) /\ Nearest(p, z[1], z[2], q) => Same(y, z))
Exists == \E y \in In : Nearest(p, y[1], y[2], q)
Samples == IF Len(q) = 2 THEN {<<Sum2(Mul(i, q[1]), Mul(4 - i, q[2])), 4>> : i \in 0..4}
           ELSE {<<Sum2(Sum2(Mul(t[1], q[1]), Mul(t[2], q[2])), Mul(4 - t[1] - t[2], q[3])), 4>> : t \in {t \in (0..4) \X (0..4) : t[1] + t[2] <= 4}}
NoneCloser == Done => \A y \in Samples : InHull(y[1], 4, q) /\ Leq(D2(x), D2(y))
\* the distance to an edge by the closed formula
Formula == (Done /\ Len(q) = 2) => Eq(D2(x), Dist2Seg(p, q[1], q[2]))
Bounded == steps <= 7
Emit == (Mode \in {"edge", "tri"} /\ steps = 0 /\ IOEnv.GN_GEN = "1") => PrintT("@@" \o ToJson(p \o q[1] \o q[2] \o (IF Len(q) = 3 THEN q[3] ELSE << >>)))
=============================================================================
