----------------------------- MODULE SweepTrace -----------------------------
EXTENDS Sweep, TraceBase
VARIABLES l, g
tvars == <<l, g>>
n == Len(g)
Idx == 1..n
\* unit-length version of the graph
U == [i \in Idx |-> [k \in 1..Len(g[i]) |-> <<g[i][k][1], 1>>]]
\* e.dist (-1: not reached), e.order (rank of the visit, -1: none), e.visit: nodes in the order they were announced
Sweep3(e, d, vis) ==
  LET R == {i \in Idx : d[i] < INF} IN
  /\ Chk("lengths of the results", Len(e.dist) = n /\ Len(e.order) = n)
  /\ Chk("true shortest distance", \A i \in R : e.dist[i] = d[i])
  /\ Chk("unreachable left unmarked", \A i \in Idx \ R : e.dist[i] = -1 /\ e.order[i] = -1)
  /\ Chk("order is a ranking of what was reached", {e.order[i] : i \in R} = 0..(Cardinality(R)-1))
  /\ Chk("visited in order of distance", \A i \in R, j \in R : e.order[i] < e.order[j] => d[i] <= d[j])
  /\ (Chk("items announced as they are visited", vis => (Len(e.visit) = Cardinality(R) /\ \A k \in 1..Len(e.visit) : e.visit[k]+1 \in R /\ e.order[e.visit[k]+1] = k-1)))
TopoOK(e) == Sweep3(e, Dist(U, {e.s+1}, Idx), FALSE)
GeoOK(e) == Sweep3(e, Dist(g, {e.s+1}, {i \in Idx : e.inc[i] = 1}), TRUE)
PointOK(e) == Sweep3(e, Dist(g, {e.s+1}, Idx), TRUE)
FillOK(e) == LET In == {i \in Idx : e.flg[i] = e.f}
                 S == {i \in In : Len(g[i]) < e.ned \/ \E k \in 1..Len(g[i]) : g[i][k][1] \notin In}
             IN Sweep3(e, Dist(U, S, In), TRUE)
\* clustering: one seed per cluster, each later seed one of the farthest from
\* those before it; every element belongs to a cluster with a nearest seed
RECURSIVE Seeds(_, _, _)
Seeds(e, k, best) == \* best[i] = distance to the seeds so far
  IF k = e.ncl THEN \A i \in Idx : TRUE ELSE
  \E s \in {i \in Idx : e.flg[i] = k} :
    /\ (k > 0 => \A i \in Idx : best[i] <= best[s])
    /\ LET d == Dist(U, {s}, Idx)
           b == [i \in Idx |-> IF d[i] < best[i] THEN d[i] ELSE best[i]]
       IN /\ \A i \in Idx : e.flg[i] = k => d[i] = b[i]
          /\ \A i \in Idx : e.flg[i] < k => best[i] <= d[i]
          /\ Seeds(e, k+1, b)
ClusterOK(e) == /\ Chk("every element in one of the clusters", Len(e.flg) = n /\ \A i \in Idx : e.flg[i] \in 0..(e.ncl-1))
                /\ Chk("every element with a nearest seed", Seeds(e, 0, [i \in Idx |-> INF]))
\* ---- merging of points in pairs
Adj(i, j) == \E k \in 1..Len(g[i]) : g[i][k][1] = j
Mem(e, c) == {i \in Idx : e.map[i] = c}
SumA(e, M, a) == MapThenSumSet(LAMBDA i : e.area[i] * (IF a = 0 THEN 1 ELSE e.x[i][a]), M)
BinOK(e) ==
  /\ Chk("every point in one cluster", Len(e.map) = n /\ {e.map[i] : i \in Idx} = 0..(e.np-1))
  /\ Chk("clusters are points or pairs of neighbours", \A c \in 0..(e.np-1) : LET M == Mem(e, c) IN Cardinality(M) <= 2 /\ \A i \in M, j \in M : i # j => Adj(i, j))
  /\ Chk("no two neighbours both left alone", \A i \in Idx, j \in Idx : (Adj(i, j) /\ i # j) => ~(Cardinality(Mem(e, e.map[i])) = 1 /\ Cardinality(Mem(e, e.map[j])) = 1))
Bin3OK(e) == BinOK(e)
  /\ Chk("lengths", Len(e.area1) = e.np /\ Len(e.xa1) = e.np /\ Len(e.n1) = e.np)
  /\ Chk("areas add up", \A c \in 0..(e.np-1) : e.area1[c+1] = SumA(e, Mem(e, c), 0))
  /\ Chk("weighted mean position", \A c \in 0..(e.np-1), a \in 1..3 : e.xa1[c+1][a] = SumA(e, Mem(e, c), a))
  /\ Chk("normal along the weighted mean normal, of length one", \A c \in 0..(e.np-1) : LET v == e.n1[c+1]  m == [a \in 1..3 |-> MapThenSumSet(LAMBDA i : e.area[i] * e.nrm[i][a], Mem(e, c))]
        s == v[1]*v[1] + v[2]*v[2] + v[3]*v[3]  sm == m[1] + m[2] + m[3] IN
        s \in 990000..1010000 /\ \A a \in 1..3, b \in 1..3 : v[a]*m[b] - v[b]*m[a] \in (-2*sm)..(2*sm) /\ v[a] >= 0)
PsupOK(e) == LET nb(c) == {e.map[j[1]] : j \in UNION {Nbr(g, i) : i \in Mem(e, c)}} \ {c} IN
  /\ Chk("table of the coarse points", Len(e.ind) = e.np+1 /\ e.ind[1] = 0 /\ e.ind[e.np+1] = Len(e.psup) /\ \A c \in 1..e.np : e.ind[c] <= e.ind[c+1])
  /\ Chk("neighbours of the coarse points", \A c \in 1..e.np : LET s == SubSeq(e.psup, e.ind[c]+1, e.ind[c+1]) IN NoDup(s) /\ ToSet(s) = nb(c-1))
TraceInit == l = 1 /\ g = <<>>
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Graph" /\ g' = [i \in 1..Len(e.nb) |-> [k \in 1..Len(e.nb[i]) |-> <<e.nb[i][k]+1, e.len[i][k]>>]]
     \/ e.ev = "Topo" /\ (TopoOK(e) = TRUE) /\ UNCHANGED g
     \/ e.ev = "Geo" /\ (GeoOK(e) = TRUE) /\ UNCHANGED g
     \/ e.ev = "Point" /\ (PointOK(e) = TRUE) /\ UNCHANGED g
     \/ e.ev = "Fill" /\ (FillOK(e) = TRUE) /\ UNCHANGED g
     \/ e.ev = "Cluster" /\ (ClusterOK(e) = TRUE) /\ UNCHANGED g
     \/ e.ev = "Bin2" /\ (BinOK(e) = TRUE) /\ UNCHANGED g
     \/ e.ev = "Bin3" /\ (Bin3OK(e) = TRUE) /\ UNCHANGED g
     \/ e.ev = "Psup" /\ (PsupOK(e) = TRUE) /\ UNCHANGED g
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
