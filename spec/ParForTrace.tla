---------------------------- MODULE ParForTrace ----------------------------
(* Recorded loops: every begin and end of a call, in the order they took    *)
(* place, and the return.  An index of a two-level loop is the pair         *)
(* <<i, j>>, written i + 1000*j.  Long loops are recorded as the number of  *)
(* calls made for every index; a picture as its pixels.                     *)
EXTENDS ParFor, TraceBase
VARIABLES l, who, phase
tvars == <<vars, l, who, phase>>
Closed == idx = {} /\ lim = 0 /\ begun = {} /\ active = {} /\ ended = {} /\ threw = {} /\ out = -1
Indices(e) == IF e.d = 1 THEN 0..(e.n1 - 1) ELSE {i + 1000 * j : i \in 0..(e.n1 - 1), j \in 0..(e.n2 - 1)}
TraceInit == l = 1 /\ Closed /\ who = << >> /\ phase = "none"
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Loop" /\ Open(Indices(e), e.k) /\ who' = << >> /\ phase' = "loop"
     \/ /\ e.ev = "Begin" /\ phase = "loop"
        /\ (Chk("call after the loop returned", out = -2) = TRUE)
        /\ (Chk("index out of range", e.i \in idx) = TRUE)
        /\ (Chk("index handled twice", e.i \notin begun) = TRUE)
        /\ (Chk("more calls at once than asked for", lim = 0 \/ Cardinality(active) < lim) = TRUE)
        /\ (Chk("one thread runs two calls at once", \A j \in active : who[j] # e.t) = TRUE)
        /\ (Chk("call after the only thread failed", lim = 1 => threw = {}) = TRUE)
        /\ Begin(e.i) /\ who' = (e.i :> e.t) @@ who /\ UNCHANGED phase
     \/ e.ev = "End" /\ phase = "loop" /\ (Chk("end", e.i \in active /\ out = -2) = TRUE) /\ End(e.i, e.x = 1) /\ UNCHANGED <<who, phase>>
     \/ /\ e.ev = "Return" /\ phase = "loop"
        /\ (Chk("returned while calls run", active = {}) = TRUE)
        /\ (Chk("index left out", (threw = {}) => ended = idx) = TRUE)
        /\ (Chk("exception lost", threw # {} => e.x \in threw) = TRUE)
        /\ (Chk("exception out of nothing", threw = {} => e.x = -1) = TRUE)
        /\ (IF e.x = -1 THEN Return ELSE Raise(e.x)) /\ UNCHANGED <<who, phase>>
     \/ /\ e.ev = "Counts" /\ UNCHANGED <<vars, who>> /\ phase' = "counts"
        /\ (Chk("every index once", e.n > 0 => (e.lo = 1 /\ e.hi = 1)) = TRUE)
        /\ (Chk("number of calls", e.calls = e.n) = TRUE)
        /\ (Chk("out of range", e.bad = 0) = TRUE)
        /\ (Chk("calls end before the return", e.atret = e.n /\ e.late = 0) = TRUE)
        /\ (Chk("calls at once", e.k = 0 \/ e.most <= e.k) = TRUE)
     \/ /\ e.ev = "Image" /\ UNCHANGED <<vars, who>> /\ phase' = "image"
        /\ (Chk("size", Len(e.ser) = e.w * e.h /\ Len(e.par) = e.w * e.h) = TRUE)
        /\ (Chk("ray hits a wrong triangle", e.ser = e.exp) = TRUE)
        /\ (Chk("parallel and serial differ", e.par = e.ser) = TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
