---------------------------- MODULE MasterSlaveMC ----------------------------
(* The reduction done in place on the stored blocks: rows of slaves are      *)
(* added to masters one dof after the other, then columns, then the slaves   *)
(* are cleared.  Every step must find the entry it adds to in the pattern.   *)
EXTENDS MasterSlave, TLC, Json, IOUtils
VARIABLES n, w, psup, ms, pat, M0, M, d, ph, ok
mvars == <<n, w, psup, ms, pat, M0, M, d, ph, ok>>
Mode == IOEnv.MS_MODE
Top == atoi(IOEnv.MS_MAX)
Off(k) == {q \in (0..(k-1)) \X (0..(k-1)) : q[1] # q[2]}
N == n*w
InP(Q, i, j) == Bk(i, w) = Bk(j, w) \/ <<Bk(i, w), Bk(j, w)>> \in Q
Value(i, j) == ((3*i + 7*j + i*j) % 5) - 1
Sizes == IF Mode = "gen" THEN {<<2, 1>>, <<3, 1>>, <<2, 2>>} ELSE {<<2, 1>>, <<3, 1>>, <<2, 2>>, <<2, 3>>} \cup (IF Top > 3 THEN {<<3, 2>>} ELSE {})
MCInit == /\ \E z \in Sizes : n = z[1] /\ w = z[2]
          /\ psup \in SUBSET Off(n)
          /\ ms \in [1..N -> {-1} \cup 0..(N-1)] /\ TieOK(ms, w)
          /\ pat = Coupled(psup, ms, w) /\ d = 0 /\ ph = "row" /\ ok = TRUE
          /\ M0 = [i \in 1..N |-> [j \in 1..N |-> IF InP(psup, i-1, j-1) THEN Value(i, j) ELSE 0]] /\ M = M0
RowStep == ph = "row" /\ d < N /\ d' = d+1 /\ UNCHANGED <<n, w, psup, ms, pat, M0, ph>> /\
  IF ~Tied(ms, d) THEN UNCHANGED <<M, ok>>
  ELSE LET m == ms[d+1] IN
       /\ M' = [M EXCEPT ![m+1] = [j \in 1..N |-> M[m+1][j] + M[d+1][j]]]
       /\ ok' = (ok /\ \A j \in 0..(N-1) : InP(pat, d, j) => InP(pat, m, j))
ColStep == ph = "row" /\ d = N /\ ph' = "col" /\ UNCHANGED <<n, w, psup, ms, pat, M0, d>>
           /\ M' = [i \in 1..N |-> [j \in 1..N |-> M[i][j] + MapThenSumSet(LAMBDA s : M[i][s+1], {s \in 0..(N-1) : ms[s+1] = j-1})]]
           /\ ok' = (ok /\ \A i \in 0..(N-1), s \in 0..(N-1) : (Tied(ms, s) /\ InP(pat, i, s)) => InP(pat, i, ms[s+1]))
Clear == ph = "col" /\ ph' = "done" /\ UNCHANGED <<n, w, psup, ms, pat, M0, d, ok>>
         /\ M' = [i \in 1..N |-> [j \in 1..N |-> IF Tied(ms, i-1) \/ Tied(ms, j-1) THEN (IF i = j THEN 1 ELSE 0) ELSE M[i][j]]]
MCSpec == MCInit /\ [][Mode = "mc" /\ (RowStep \/ ColStep \/ Clear)]_mvars
Finds == ok
ReducedOK == ph = "done" => M = Reduced(M0, ms)
RhsOK == ph = "done" => LET x == [i \in 1..N |-> i]  T == [i \in 1..N |-> IF Tied(ms, i-1) THEN x[ms[i]+1] ELSE x[i]] IN
  \* the reduced system is the original one tested and solved with tied values
  \A i \in 1..N : ~Tied(ms, i-1) => (MapThenSumSet(LAMBDA j : Reduced(M0, ms)[i][j] * x[j], {j \in 1..N : ~Tied(ms, j-1)})
                                     = ReducedRhs([a \in 1..N |-> MapThenSumSet(LAMBDA j : M0[a][j] * T[j], 1..N)], ms)[i])
Bits(S) == [q \in 1..(n*n) |-> IF <<((q-1) \div n), ((q-1) % n)>> \in S THEN 1 ELSE 0]
Emit == (Mode = "gen") => PrintT("@@" \o ToJson(<<n, w>> \o Bits(psup) \o ms))
=============================================================================
