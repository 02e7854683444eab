--------------------------- MODULE MasterSlaveTrace ---------------------------
EXTENDS MasterSlave, TraceBase
VARIABLES l, ms, w, n
tvars == <<l, ms, w, n>>
PairsOf(rows) == UNION {{<<i-1, rows[i][k]>> : k \in 1..Len(rows[i])} : i \in 1..Len(rows)}
TraceInit == l = 1 /\ ms = <<>> /\ w = 1 /\ n = 0
Same == UNCHANGED <<ms, w, n>>
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Pattern" /\ ms' = e.ms /\ w' = e.w /\ n' = Len(e.psup)
          /\ (Chk("ties of the case", TieOK(e.ms, e.w)) = TRUE)
          /\ (Chk("a block is listed twice", \A i \in 1..Len(e.got) : NoDup(e.got[i])) = TRUE)
          /\ (Chk("couplings", PairsOf(e.got) = Coupled(PairsOf(e.psup), e.ms, e.w)) = TRUE)
     \/ e.ev = "Tie" /\ Same /\ (Chk("reduced matrix", e.d1 = Reduced(e.d, ms)) = TRUE)
     \/ e.ev = "Rhs" /\ Same /\ (Chk("reduced right hand side", e.b1 = ReducedRhs(e.b, ms)) = TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
