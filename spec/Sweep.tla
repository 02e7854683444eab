------------------------------- MODULE Sweep -------------------------------
(* C13: shortest-path sweeps over a weighted graph.  A graph is a sequence   *)
(* of sequences of <<neighbour, length>>; nodes are 1..Len(g).               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt
INF == 1000000
Nbr(g, i) == {g[i][k] : k \in 1..Len(g[i])}
\* true distances from a set of sources, inside the set In of admissible nodes
RECURSIVE Relax(_, _, _)
Relax(g, d, In) ==
  LET e == [i \in 1..Len(g) |-> IF i \notin In THEN d[i] ELSE
              Min({d[i]} \cup {IF d[g[i][k][1]] = INF THEN INF ELSE d[g[i][k][1]] + g[i][k][2] : k \in 1..Len(g[i])})]
  IN IF e = d THEN d ELSE Relax(g, e, In)
Dist(g, S, In) == Relax(g, [i \in 1..Len(g) |-> IF i \in S THEN 0 ELSE INF], In)
\* one step of the sweep: a node of the queue with the least label is settled
\* and its neighbours are relaxed (ties are resolved in any way)
Settle(st, g, i, d) ==
  LET new == {<<n[1], d + n[2]>> : n \in {m \in Nbr(g, i) : d + m[2] < st.dist[m[1]]}}
  IN [dist |-> [j \in 1..Len(g) |-> Min({st.dist[j]} \cup {n[2] : n \in {m \in new : m[1] = j}})],
      order |-> Append(st.order, i), que |-> (st.que \ {<<i, d>>}) \cup new]
=============================================================================
