--------------------------- MODULE SeparateTrace ---------------------------
(* g: GJK, s: separating axes, each for (A,B) and (B,A); e: 1 when the       *)
(* coordinates are exact; p, pn: penetration and shift in 1/10^4.            *)
EXTENDS Separate, TraceBase
VARIABLES l
Pts(a, d) == {[j \in 1..d |-> a[d * (i - 1) + j]] : i \in 1..(Len(a) \div d)}
SeqPts(a, d) == [i \in 1..(Len(a) \div d) |-> [j \in 1..d |-> a[d * (i - 1) + j]]]
U == 10000
TolU(e) == IF e.f = 1 THEN 200 ELSE 3
Hulls(e, S, T, solid, M) ==
  LET v == Verdict(M) IN
  /\ (Chk("gjk answers yes or no", ToSet(e.g) \subseteq {0, 1}) = TRUE)
  /\ (Chk("gjk", \A r \in ToSet(e.g) : Same(IF solid \/ v # "overlap" THEN v ELSE "touch", r)) = TRUE)
  /\ (Chk("separating axes", \A r \in ToSet(e.s) : IF e.e = 1 THEN Exact(v, r) ELSE Same(IF solid \/ v # "overlap" THEN v ELSE "touch", r)) = TRUE)
  /\ (IF ~solid THEN TRUE ELSE
      /\ (Chk("penetration found", \A r \in ToSet(e.p) : Same(v, r)) = TRUE)
      /\ ((v = "overlap" /\ Len(e.p) > 0) => Chk("shift", IsShift(M, e.pn, U, TolU(e)) /\ IsShift(M, Neg(e.qn), U, TolU(e)))) = TRUE)
Times1000(Q) == {[i \in 1..Len(q) |-> 1000 * q[i]] : q \in Q}
\* a point rounded to 1/1000 is within 3/1000 of the triangle in every direction of interest
Slack(n) == 3 * (Abs(n[1]) + Abs(n[2]) + Abs(n[3]))
TraceInit == l = 1
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ /\ e.ev = "Pair2"
        /\ LET S == Pts(e.a, 2) T == Pts(e.b, 2)
               solid == Solid2(S, T)
               M == TLCEval(Measures(S, T, Axes2(S, T) \cup (IF solid THEN {} ELSE Flat2Axes(S, T)))) IN Hulls(e, S, T, solid, M)
     \/ /\ e.ev = "Pair3"
        /\ LET S == Pts(e.a, 3) T == Pts(e.b, 3)
               solid == Solid3(S, T) IN
           IF ~solid THEN (Chk("returns", ToSet(e.g) \subseteq {0, 1}) = TRUE)
           ELSE LET M == TLCEval(Measures(S, T, Axes3(S, T))) IN Hulls(e, S, T, solid, M)
     \/ /\ e.ev = "Seg2"
        /\ LET P == SeqPts(e.p, 2) v == Seg2Meet(P[1], P[2], P[3], P[4]) IN
           (Chk("segments", \A r \in ToSet(e.r) : (r = 1) = v) = TRUE)
     \/ /\ e.ev = "BoxSeg"
        /\ LET P == SeqPts(e.p, 2) v == BoxSegMeet(P[1], P[2], P[3], P[4]) IN
           (Chk("box and segment", \A r \in ToSet(e.r) : (r = 1) = v) = TRUE)
     \/ /\ e.ev = "Tri3"
        /\ LET P == SeqPts(e.p, 3) S == {P[1], P[2], P[3]} T == {P[4], P[5], P[6]}
               v == TriPair(S, T) IN
           /\ (Chk("triangles", \A r \in ToSet(e.r) : (v = "apart" => r = 0) /\ (v = "overlap" => r = 1)) = TRUE)
           /\ (v = "overlap" => Chk("common segment",
                 \A Q \in {S, T} : \A x \in {e.x, e.y} : LET M == Measures({x}, Times1000(Q), Both({Cross(d1, d2) : d1, d2 \in Half(Edges(Q))} \cup {Cross(Cross(d1, d2), d1) : d1, d2 \in Half(Edges(Q))}))
                 IN \A m \in M : m[2] >= -Slack(m[1]))) = TRUE
     \/ /\ e.ev = "Ray"
        /\ LET P == SeqPts(e.p, 3) v == RayTri(P[1], P[2], P[3], P[4], P[5]) IN
           (Chk("ray and triangle", \A r \in ToSet(e.r) : Is3(v, r)) = TRUE)
     \/ /\ e.ev = "Pad"
        /\ (Chk("origin in padded box", (e.r = 1) = InPadded(SeqPts(e.p, e.k), e.d)) = TRUE)
     \/ /\ e.ev = "BoxBall"
        /\ (Chk("box and disk", (e.r = 1) = (e.mn[1] <= e.mx[1] /\ DistBox2(e.mn, e.mx, e.o) <= e.d * e.d)) = TRUE)
     \/ /\ e.ev = "BoxBox"
        /\ (Chk("boxes", (e.r = 1) = (e.m1[1] <= e.x1[1] /\ e.m2[1] <= e.x2[1] /\ \A k \in 1..Len(e.m1) : e.m1[k] - e.d <= e.x2[k] /\ e.m2[k] - e.d <= e.x1[k])) = TRUE)
     \/ /\ e.ev = "Ball"   \* balls with whole radii; a line and a half-line o + t d
        /\ LET w == Sub(e.z, e.o) ww == Dot(w, w) wd == Dot(w, e.d) dd == Dot(e.d, e.d)
               gap == ww * dd - wd * wd - e.r * e.r * dd IN
           /\ (Chk("line and ball", (gap < 0 => e.line = 1) /\ (gap > 0 => e.line = 0)) = TRUE)
           /\ (Chk("half-line and ball", IF ww < e.r * e.r THEN e.ray = 1 ELSE IF ww = e.r * e.r THEN TRUE
                  ELSE IF wd < 0 THEN e.ray = 0 ELSE (gap < 0 => e.ray = 1) /\ (gap > 0 => e.ray = 0)) = TRUE)
           /\ (Chk("balls", LET q == (e.r + e.r2) * (e.r + e.r2) IN (ww < q => e.ball = 1) /\ (ww > q => e.ball = 0)) = TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
