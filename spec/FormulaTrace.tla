---------------------------- MODULE FormulaTrace ----------------------------
EXTENDS Formula, TraceBase
VARIABLES l, env, toks, live
tvars == <<l, env, toks, live>>
NoEnv == [t \in {} |-> <<0, 1>>]
TraceInit == l = 1 /\ env = NoEnv /\ toks = <<>> /\ live = FALSE
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "New" /\ env' = NoEnv /\ toks' = <<>> /\ live' = FALSE
     \/ e.ev = "Key" /\ env' = (e.k :> <<e.n, e.d>>) @@ env /\ UNCHANGED <<toks, live>>
     \/ e.ev = "Exp" /\ UNCHANGED env /\ toks' = e.t /\ live' = (e.ret = 1)
        /\ (Chk("accepted exactly when well formed", (e.ret = 1) = WellFormed(e.t, DOMAIN env)) = TRUE)
     \/ e.ev = "Eval" /\ UNCHANGED <<env, toks, live>>
        /\ (Chk("evaluated a refused formula", live) = TRUE)
        /\ (Chk("value", Shows(e.v, Value(Parse(toks)[3], env))) = TRUE)
     \/ e.ev = "Used" /\ UNCHANGED <<env, toks, live>>
        /\ (Chk("evaluated a refused formula", live) = TRUE)
        /\ (Chk("used", (e.r = 1) = (e.k \in Names(Parse(toks)[3]) /\ e.k \in DOMAIN env /\ e.k # "PI")) = TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
