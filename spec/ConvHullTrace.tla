-------------------------- MODULE ConvHullTrace --------------------------
EXTENDS ConvHull, TraceBase
VARIABLES l
Pts(a, d) == [i \in 1..(Len(a) \div d) |-> [j \in 1..d |-> a[d * (i - 1) + j]]]
Tris(a) == [i \in 1..(Len(a) \div 3) |-> [j \in 1..3 |-> a[3 * (i - 1) + j] + 1]]
Up(a) == [i \in 1..Len(a) |-> a[i] + 1]
TraceInit == l = 1
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ /\ e.ev = "Hull2"
        /\ LET P == Pts(e.p, 2) g == Up(e.h)
               closes == Len(g) >= 2 /\ g[1] = g[Len(g)]
               h == IF closes THEN SubSeq(g, 1, Len(g) - 1) ELSE g IN
           /\ (Chk("polygon not closed", closes \/ Len(g) <= 2) = TRUE)
           /\ (Chk("corners are input points", Valid(P, h)) = TRUE)
           /\ (Chk("repeated corner", Cardinality({P[h[i]] : i \in 1..Len(h)}) = Len(h)) = TRUE)
           /\ (Chk("hull", Hull2(P, h)) = TRUE)
     \/ /\ e.ev = "Hull3"
        /\ LET P == Pts(e.p, 3) t == Tris(e.t) IN
           /\ (Chk("whole triangles", Len(e.t) % 3 = 0) = TRUE)
           /\ (Chk("corners are input points", \A i \in 1..Len(t) : \A k \in 1..3 : t[i][k] \in 1..Len(P)) = TRUE)
           /\ (Chk("closed", Closed(t)) = TRUE)
           /\ (Chk("point outside", AllInside(P, t)) = TRUE)
           /\ (Chk("hull", Hull3(P, t)) = TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
