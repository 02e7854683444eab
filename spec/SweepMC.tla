------------------------------ MODULE SweepMC ------------------------------
(* Every graph of up to four nodes with lengths 1 and 2, every order in      *)
(* which ties of the queue can be taken.  The generator mode lists every     *)
(* graph of up to N nodes (as a bit per pair of nodes).                      *)
EXTENDS Sweep, TLC, Json, IOUtils
VARIABLES st, G, bits
mvars == <<st, G, bits>>
Mode == IOEnv.SWEEP_MODE
N == atoi(IOEnv.SWEEP_MAX)
W(w, i, j) == w[IF i < j THEN <<i, j>> ELSE <<j, i>>]
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == Min(S) IN <<x>> \o SetSeq(S \ {x})
AsG(n, w) == [i \in 1..n |-> LET q == SetSeq({j \in 1..n : j # i /\ W(w, i, j) > 0}) IN [k \in 1..Len(q) |-> <<q[k], W(w, i, q[k])>>]]
InitMC == /\ Mode = "mc" /\ bits = <<>>
          /\ \E n \in 1..N : \E w \in [{p \in (1..n) \X (1..n) : p[1] < p[2]} -> {0, 1, 2}] : G = AsG(n, w)
          /\ st = [dist |-> [i \in 1..Len(G) |-> IF i = 1 THEN 0 ELSE INF], order |-> <<>>, que |-> {<<1, 0>>}]
Bits(n) == (n * (n-1)) \div 2
InitGen == Mode = "gen" /\ G = <<>> /\ st = <<>> /\ \E n \in 1..N : \E b \in [1..Bits(n) -> {0, 1}] : bits = <<n>> \o b
MCInit == InitMC \/ InitGen
Pop == /\ Mode = "mc" /\ st.que # {} /\ UNCHANGED <<G, bits>>
       /\ \E q \in st.que : /\ \A r \in st.que : q[2] <= r[2]
            /\ st' = IF \E k \in 1..Len(st.order) : st.order[k] = q[1] THEN [st EXCEPT !.que = @ \ {q}] ELSE Settle(st, G, q[1], q[2])
MCSpec == MCInit /\ [][Pop]_mvars
True == Dist(G, {1}, 1..Len(G))
FixedTrue == Mode = "mc" => \A k \in 1..Len(st.order) : st.dist[st.order[k]] = True[st.order[k]]
Monotone == Mode = "mc" => \A k \in 2..Len(st.order) : st.dist[st.order[k-1]] <= st.dist[st.order[k]] /\ Cardinality({st.order[i] : i \in 1..k}) = k
Complete == (Mode = "mc" /\ st.que = {}) => st.dist = True /\ {st.order[k] : k \in 1..Len(st.order)} = {i \in 1..Len(G) : True[i] < INF}
Emit == Mode = "gen" => PrintT("@@" \o ToJson(bits))
=============================================================================
