------------------------------ MODULE ParFor ------------------------------
(* What a parallel loop promises: every index is handled by exactly one     *)
(* call, no more calls run at once than threads were asked for, and the     *)
(* loop returns after the last call has ended.  When calls throw, one of    *)
(* the thrown exceptions reaches the caller, again after the last call      *)
(* ended; no index is handled twice.                                        *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES idx,       \* the indices of the loop
          lim,       \* how many calls may run at once (0: not said)
          begun, active, ended, threw,  \* sets of indices
          out        \* -2: running, -1: returned, i: returned with the exception of index i
vars == <<idx, lim, begun, active, ended, threw, out>>
Open(S, k) == idx' = S /\ lim' = k /\ begun' = {} /\ active' = {} /\ ended' = {} /\ threw' = {} /\ out' = -2
Begin(i) == /\ out = -2 /\ i \in idx \ begun
            /\ (lim = 0 \/ Cardinality(active) < lim)
            /\ (lim = 1 => threw = {})      \* a lone thread that failed handles nothing more
            /\ begun' = begun \cup {i} /\ active' = active \cup {i} /\ UNCHANGED <<idx, lim, ended, threw, out>>
End(i, t) == /\ i \in active /\ active' = active \ {i} /\ ended' = ended \cup {i}
             /\ threw' = (IF t THEN threw \cup {i} ELSE threw) /\ UNCHANGED <<idx, lim, begun, out>>
Return == out = -2 /\ active = {} /\ threw = {} /\ ended = idx /\ out' = -1 /\ UNCHANGED <<idx, lim, begun, active, ended, threw>>
Raise(i) == out = -2 /\ active = {} /\ i \in threw /\ out' = i /\ UNCHANGED <<idx, lim, begun, active, ended, threw>>
=============================================================================
