---------------------------- MODULE LinProgTrace ----------------------------
EXTENDS LinProg, TraceBase
VARIABLES l, n, rows, corners, rays, ready
tvars == <<l, n, rows, corners, rays, ready>>
Mx(S) == CHOOSE x \in S : \A y \in S : y <= x
Pad(a, k) == [i \in 1..k |-> IF i <= Len(a) THEN a[i] ELSE 0]
Point(e) == <<e.q, e.x>>
TraceInit == l = 1 /\ n = 1 /\ rows = <<>> /\ corners = {} /\ rays = {} /\ ready = FALSE
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "New" /\ rows' = <<>> /\ n' = 1 /\ corners' = {} /\ rays' = {} /\ ready' = FALSE
     \* rows are added at any time; the program is what was added so far
     \/ e.ev = "Row" /\ rows' = Append(rows, <<e.a, e.b, e.k>>) /\ ready' = FALSE /\ UNCHANGED <<n, corners, rays>>
     \/ e.ev = "Pre" /\ UNCHANGED rows
        /\ LET k == Mx({Len(rows[i][1]) : i \in 1..Len(rows)})
               R == [i \in 1..Len(rows) |-> <<Pad(rows[i][1], k), rows[i][2], rows[i][3]>>] IN
           /\ n' = k /\ corners' = TLCEval(Corners(k, R)) /\ rays' = TLCEval(Rays(k, R)) /\ ready' = (e.ret = 0)
           /\ (Chk("iterations", e.nitr <= e.lim) = TRUE)
           /\ (Chk("feasibility", e.ret = (IF corners' = {} THEN 3 ELSE 0)) = TRUE)
           /\ (Chk("valid point", e.ret = 0 => (e.q > 0 /\ Len(e.x) = k /\ Feasible(k, R, Point(e)))) = TRUE)
     \/ e.ev = "Solve" /\ UNCHANGED <<n, rows, corners, rays, ready>>
        /\ LET c == Pad(e.o, n)  R == [i \in 1..Len(rows) |-> <<Pad(rows[i][1], n), rows[i][2], rows[i][3]>>] IN
           /\ (Chk("solved without a valid point", ready) = TRUE)
           /\ (Chk("bound", e.ret = (IF Unbounded(rays, c) THEN 2 ELSE 0)) = TRUE)
           /\ (e.ret = 0 => (/\ (Chk("iterations", e.nitr <= e.lim) = TRUE)
                             /\ (Chk("solution is feasible", e.q > 0 /\ Len(e.x) = n /\ Feasible(n, R, Point(e))) = TRUE)
                             /\ (Chk("solution is optimal", IsOptimum(corners, c, Point(e))) = TRUE)
                             /\ (Chk("optimal value", e.v = Dot(c, e.x)) = TRUE)))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
