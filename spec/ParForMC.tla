----------------------------- MODULE ParForMC -----------------------------
(* The machine of thread.h: K threads draw numbers from one shared counter, *)
(* look whether the number is in range, look whether another one failed,    *)
(* and make the call; the caller waits for the threads one after the other. *)
(* Every interleaving of these steps is explored, and each run is shown to  *)
(* be a run of ParFor.  The counter has W values (0: unbounded), as the     *)
(* index type of the caller may be narrow.                                  *)
(* Mode "gen": the orders in which a controller lets the running calls end. *)
EXTENDS ParFor, TLC, Json, IOUtils
Mode == IOEnv.PF_MODE
NMax == atoi(IOEnv.PF_N)
KMax == atoi(IOEnv.PF_K)
VARIABLES next, err, pc, got, up, joined, exc, N, K, T
mvars == <<next, err, pc, got, up, joined, exc, N, K, T>>
all == <<vars, mvars>>
MInit == /\ N \in 0..NMax /\ K \in 1..KMax /\ T \in SUBSET (0..N-1)
         /\ idx = 0..N-1 /\ lim = K /\ begun = {} /\ active = {} /\ ended = {} /\ threw = {} /\ out = -2
         /\ next = 0 /\ err = FALSE /\ pc = [t \in 1..K |-> "off"] /\ got = [t \in 1..K |-> -1] /\ up = 0 /\ joined = 0 /\ exc = [t \in 1..K |-> -1]
Spawn == up < K /\ up' = up + 1 /\ pc' = [pc EXCEPT ![up + 1] = "draw"] /\ UNCHANGED <<vars, next, err, got, joined, exc, N, K, T>>
Draw(t) == /\ pc[t] = "draw" /\ got' = [got EXCEPT ![t] = next] /\ next' = (IF next >= N THEN next ELSE next + 1)
           /\ pc' = [pc EXCEPT ![t] = IF next >= N THEN "fin" ELSE "look"] /\ UNCHANGED <<vars, err, up, joined, exc, N, K, T>>
Look(t) == /\ pc[t] = "look" /\ pc' = [pc EXCEPT ![t] = IF err THEN "fin" ELSE "go"] /\ UNCHANGED <<vars, next, err, got, up, joined, exc, N, K, T>>
Go(t) == /\ pc[t] = "go" /\ begun' = begun \cup {got[t]} /\ active' = active \cup {got[t]} /\ pc' = [pc EXCEPT ![t] = "in"]
         /\ UNCHANGED <<idx, lim, ended, threw, out, next, err, got, up, joined, exc, N, K, T>>
Out(t) == /\ pc[t] = "in" /\ active' = active \ {got[t]} /\ ended' = ended \cup {got[t]}
          /\ threw' = (IF got[t] \in T THEN threw \cup {got[t]} ELSE threw)
          /\ pc' = [pc EXCEPT ![t] = IF got[t] \in T THEN "catch" ELSE "draw"]
          /\ UNCHANGED <<idx, lim, begun, out, next, err, got, up, joined, exc, N, K, T>>
Catch(t) == pc[t] = "catch" /\ err' = TRUE /\ exc' = [exc EXCEPT ![t] = got[t]] /\ pc' = [pc EXCEPT ![t] = "fin"] /\ UNCHANGED <<vars, next, got, up, joined, N, K, T>>
\* waits for the threads in order; after the first exception it only waits for the rest
Join == up = K /\ joined < K /\ pc[joined + 1] = "fin" /\ joined' = joined + 1 /\ UNCHANGED <<vars, next, err, pc, got, up, exc, N, K, T>>
First == {t \in 1..K : exc[t] # -1 /\ \A s \in 1..t-1 : exc[s] = -1}
Leave == /\ joined = K /\ out = -2
         /\ (out' = IF First = {} THEN -1 ELSE exc[CHOOSE t \in First : TRUE])
         /\ UNCHANGED <<idx, lim, begun, active, ended, threw, mvars>>
MNext == Spawn \/ (\E t \in 1..K : Draw(t) \/ Look(t) \/ Go(t) \/ Out(t) \/ Catch(t)) \/ Join \/ Leave
\* every step of the machine is a step of the promise, or none
PNext == (\E i \in idx : Begin(i) \/ End(i, TRUE) \/ End(i, FALSE) \/ Raise(i)) \/ Return
Keeps == [][PNext]_vars
Done == <>(out # -2)
Once == out = -1 => ended = idx /\ T = {}
Still == out # -2 => active = {}

\* the controller: which of the running calls ends next (number among the running ones)
VARIABLES gn, gk, gt, gnext, gact, gdone, gerr, h
gvars == <<gn, gk, gt, gnext, gact, gdone, gerr, h>>
RECURSIVE Fill(_, _, _, _, _)
Fill(act, nx, n, k, stop) == IF stop \/ nx >= n \/ Len(act) >= k THEN <<act, nx>> ELSE Fill(Append(act, nx), nx + 1, n, k, stop)
Quiet == out = -2 /\ idx = {} /\ lim = 0 /\ begun = {} /\ active = {} /\ ended = {} /\ threw = {} /\ next = 0 /\ err = FALSE /\ pc = <<>> /\ got = <<>> /\ up = 0 /\ joined = 0 /\ exc = <<>> /\ N = 0 /\ K = 0 /\ T = {}
GInit == /\ Quiet /\ gn \in 0..NMax /\ gk \in 1..KMax /\ gt \in {S \in SUBSET (0..gn-1) : Cardinality(S) <= 2} /\ gerr = 0 /\ h = <<>> /\ gdone = {}
         /\ LET f == Fill(<<>>, 0, gn, gk, FALSE) IN gact = f[1] /\ gnext = f[2]
GStep == \E r \in 1..Len(gact) :
   LET i == gact[r]
       rest == [j \in 1..Len(gact)-1 |-> IF j < r THEN gact[j] ELSE gact[j+1]]
       e == IF i \in gt THEN gerr + 1 ELSE gerr
       f == Fill(rest, gnext, gn, gk, e > 0) IN
   /\ h' = Append(h, r - 1) /\ gdone' = gdone \cup {i} /\ gerr' = e /\ gact' = f[1] /\ gnext' = f[2]
   /\ UNCHANGED <<gn, gk, gt, vars, mvars>>
SetSeq(S, n) == [j \in 1..n |-> IF (j - 1) \in S THEN 1 ELSE 0]
Emit == (Mode = "gen" /\ gact = <<>>) => PrintT("@@" \o ToJson(<<gn, gk>> \o SetSeq(gt, gn) \o h))
GIdle == gn = 0 /\ gk = 0 /\ gt = {} /\ gnext = 0 /\ gact = <<>> /\ gdone = {} /\ gerr = 0 /\ h = <<>>
Init == IF Mode = "gen" THEN GInit ELSE MInit /\ GIdle
Next == IF Mode = "gen" THEN GStep ELSE (MNext /\ UNCHANGED gvars)
MCSpec == Init /\ [][Next]_<<all, gvars>> /\ WF_<<all, gvars>>(Next)
Ends == (Mode = "gen") \/ <>(out # -2)
=============================================================================
