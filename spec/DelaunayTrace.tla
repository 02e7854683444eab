--------------------------- MODULE DelaunayTrace ---------------------------
(* C03: recorded insertion, restoration, edge forcing, removal and refining  *)
EXTENDS Delaunay, TraceBase, FiniteSetsExt
VARIABLES l, F, xy, tri, s2, cut, flg, plan
tvars == <<l, F, xy, tri, s2, cut, flg, plan>>

Abs(tr) == {Norm(tr[i]) : i \in 1..Len(tr)}
EdgeA(t, k) == t[(k % 3) + 1]
EdgeB(t, k) == t[((k + 1) % 3) + 1]
Dir2(S) == S \cup {<<s[2], s[1]>> : s \in S}
\* C: undirected cuts (as directed pairs, both ways); neighbours are exactly the faces across uncut edges
Neigh(t, n, C) ==
  LET D == UNION {TriSegs(t[i]) : i \in 1..Len(t)} IN
  \A i \in 1..Len(t) : \A k \in 1..3 :
     LET a == EdgeA(t[i], k)  b == EdgeB(t[i], k) IN
     IF n[i][k] = -1 THEN <<b, a>> \notin D \/ <<a, b>> \in C
     ELSE n[i][k] \in 0..(Len(t)-1) /\ <<b, a>> \in TriSegs(t[n[i][k]+1]) /\ <<a, b>> \notin C
Faces(t, p) == /\ Chk("face indices", \A i \in 1..Len(t) : Len(t[i]) = 3 /\ \A k \in 1..3 : t[i][k] \in 0..(Len(p)-1))
               /\ Chk("exact points", \A i \in 1..Len(p) : p[i][1] # 1000000007 /\ p[i][2] # 1000000007)
               /\ Chk("face orientation", \A i \in 1..Len(t) : Orient(p[t[i][1]+1], p[t[i][2]+1], p[t[i][3]+1]) > 0)
               /\ Chk("edge used twice", Cardinality(UNION {TriSegs(t[i]) : i \in 1..Len(t)}) = 3 * Len(t))
Tables(e, C) ==
  /\ Chk("table sizes", Len(e.s2) = Len(e.tri) /\ Len(e.pe) = Len(e.xy) /\ Len(e.pd) = Len(e.xy))
  /\ Faces(e.tri, e.xy)
  /\ Chk("neighbours", Neigh(e.tri, e.s2, C))
  /\ Chk("vertex reference", LET U == UNION {ToSet(e.tri[i]) : i \in 1..Len(e.tri)} IN \A v \in 1..Len(e.pe) :
        IF v-1 \in U THEN e.pe[v] \in 0..(Len(e.tri)-1) /\ e.pd[v] \in 0..2 /\ e.tri[e.pe[v]+1][e.pd[v]+1] = v-1
        ELSE e.pe[v] = -1)
Load(e) == F' = Abs(e.tri) /\ xy' = e.xy /\ tri' = e.tri /\ s2' = e.s2
Free == UNCHANGED <<cut, flg, plan>>

TStart(e) == Tables(e, {}) /\ Load(e) /\ cut' = {} /\ flg' = <<>> /\ plan' = <<>>
TInsert(e) ==
  /\ Chk("one more point", e.v = Len(xy) /\ Len(e.xy) = e.v + 1 /\ SubSeq(e.xy, 1, e.v) = xy)
  /\ Tables(e, cut)
  /\ LET q == e.xy[e.v+1] IN
     IF OnRim(F, xy, q) THEN Chk("point on the rim is not inserted", Abs(e.tri) = F)
     ELSE Chk("faces around the new point", Abs(e.tri) = Inserted(F, xy, e.v, q))
  /\ Load(e) /\ Free
TRestore(e) ==
  /\ Chk("points changed", e.xy = xy) /\ Tables(e, cut)
  /\ Chk("region", Rim(Abs(e.tri)) = Rim(F) /\ Cardinality(Abs(e.tri)) = Cardinality(F))
  /\ Chk("circumcircle", IsDelaunay(Abs(e.tri), xy))
  /\ Load(e) /\ Free
\* some legal flips; then restoration around one vertex of a triangulation that need not be Delaunay
TPerturb(e) ==
  /\ Chk("points changed", e.xy = xy) /\ Tables(e, cut) /\ Chk("region", Rim(Abs(e.tri)) = Rim(F) /\ Cardinality(Abs(e.tri)) = Cardinality(F))
  /\ Load(e) /\ Free
TAround(e) ==
  LET N == Abs(e.tri)  D == DEd(N) IN
  /\ Chk("points changed", e.xy = xy) /\ Tables(e, cut)
  /\ Chk("region", Rim(N) = Rim(F) /\ Cardinality(N) = Cardinality(F))
  /\ Chk("edges of the vertex stay", \A s \in DEd(F) : e.v \in {s[1], s[2]} => s \in D)
  /\ Chk("circumcircle around the vertex", \A s \in Inner(N) : ((s \notin cut) /\ e.v \notin {s[1], s[2]} /\ (Left(N, s) = e.v \/ Right(N, s) = e.v)) => Legal(N, xy, s))
  /\ Chk("only edges facing the vertex change", \A s \in Inner(F) : s \notin D => \E t \in N : s[1] \in ToSet(t) /\ e.v \in ToSet(t))
  /\ Load(e) /\ Free
TForce(e) ==
  LET C == cut \cup {<<e.a, e.b>>, <<e.b, e.a>>} IN
  /\ Chk("points changed", e.xy = xy) /\ Tables(e, C)
  /\ Chk("edge present", HasEdge(Abs(e.tri), e.a, e.b))
  /\ Chk("region", Rim(Abs(e.tri)) = Rim(F) /\ Cardinality(Abs(e.tri)) = Cardinality(F))
  /\ Chk("edges off the segment stay", LET D == DEd(Abs(e.tri)) IN
        \A s \in Inner(F) : ~ProperCross(xy[s[1]+1], xy[s[2]+1], xy[e.a+1], xy[e.b+1]) => s \in D)
  /\ cut' = C /\ Load(e) /\ UNCHANGED <<flg, plan>>

\* faces reachable over neighbour links
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup {n \in UNION {ToSet(s2[i+1]) : i \in S} : n # -1} IN IF T = S THEN S ELSE Reach(T)
TFlag(e) ==
  LET R == Reach({e.ker})
      old == IF e.first = 1 THEN [i \in 1..Len(tri) |-> 0] ELSE flg IN
  /\ Chk("flagged faces", Len(e.fl) = Len(tri) /\ \A i \in 1..Len(tri) : e.fl[i] = (IF i-1 \in R THEN e.mark ELSE old[i]))
  /\ flg' = e.fl /\ UNCHANGED <<F, xy, tri, s2, cut, plan>>
\* remaining faces keep their order
Kept(s, P(_)) == SelectSeq([i \in 1..Len(s) |-> <<i, s[i]>>], LAMBDA x : P(x[1]))
TDelTri(e) ==
  LET keep == Kept(tri, LAMBDA i : flg[i] # e.del)
      new(i) == Cardinality({j \in 1..i : flg[j] # e.del}) - 1
  IN /\ Chk("remaining faces", e.tri = [j \in 1..Len(keep) |-> keep[j][2]])
     /\ Chk("remaining neighbours", e.s2 = [j \in 1..Len(keep) |-> [k \in 1..3 |-> LET n == s2[keep[j][1]][k] IN IF n = -1 THEN -1 ELSE new(n+1)]])
     /\ Chk("remaining flags", e.fl = [j \in 1..Len(keep) |-> flg[keep[j][1]]])
     /\ tri' = e.tri /\ s2' = e.s2 /\ flg' = e.fl /\ F' = Abs(e.tri) /\ UNCHANGED <<xy, cut, plan>>
TDelPts(e) ==
  LET del == ToSet(e.del)
      keep == Kept(xy, LAMBDA i : i-1 \notin del)
      new(v) == Cardinality({u \in 0..v : u \notin del}) - 1
      mp(s) == [i \in 1..Len(s) |-> [k \in 1..3 |-> new(s[i][k])]]
      C == {<<new(s[1]), new(s[2])>> : s \in {c \in cut : c[1] \notin del /\ c[2] \notin del}}
  IN /\ Chk("remaining points", e.xy = [j \in 1..Len(keep) |-> keep[j][2]])
     /\ Chk("renumbered faces", e.tri = mp(tri) /\ e.s2 = s2)
     /\ Chk("point flags", e.pf # <<>> => e.pf = [j \in 1..Len(keep) |-> 10 + ((keep[j][1]-1) % 3)])
     /\ Tables(e, C) /\ cut' = C /\ Load(e) /\ flg' = <<>> /\ UNCHANGED plan

\* refinement
USegs(FF) == {s \in Dir2(DEd(FF)) : s[1] < s[2]}
TPlan(e) ==
  LET near(t) == LET sx == xy[t[1]+1][1] + xy[t[2]+1][1] + xy[t[3]+1][1] - 3*e.px
                     sy == xy[t[1]+1][2] + xy[t[2]+1][2] + xy[t[3]+1][2] - 3*e.py IN sx*sx + sy*sy <= e.r9
      S == {s \in Dir2(UNION {TriSegs(t) : t \in {u \in F : near(u)}}) : s[1] < s[2] /\ Dist2(xy[s[1]+1], xy[s[2]+1]) > e.l2}
  IN /\ Chk("planned edges", e.half = 1 /\ NoDup(e.es) /\ ToSet(e.es) = S)
     /\ plan' = e.es /\ UNCHANGED <<F, xy, tri, s2, cut, flg>>
Mid(a, b) == <<(a[1]+b[1]) \div 2, (a[2]+b[2]) \div 2>>
TRefine(e) ==
  LET news == {e.es[i][3] : i \in 1..Len(e.es)}
      unused == {v \in 0..(Len(xy)-1) : \A t \in F : v \notin ToSet(t)}
      rimmid == {e.es[i][3] : i \in {j \in 1..Len(e.es) : LET s == <<e.es[j][1], e.es[j][2]>> IN s \in Rim(F) \/ <<s[2], s[1]>> \in Rim(F)}}
  IN /\ Chk("one new point per edge", Cardinality(news) = Len(e.es) /\ news \subseteq (unused \cup (Len(xy)..(Len(e.xy)-1))) /\ (Len(xy)..(Len(e.xy)-1)) \subseteq news)
     /\ Chk("old points stay", \A v \in 0..(Len(xy)-1) : v \notin news => e.xy[v+1] = xy[v+1])
     /\ Chk("midpoints", \A i \in 1..Len(e.es) : e.xy[e.es[i][3]+1] = Mid(xy[e.es[i][1]+1], xy[e.es[i][2]+1]))
     /\ Tables(e, {})
     /\ Chk("region", Rim(Abs(e.tri)) = Rim(F))
     /\ Chk("points in use", LET U == UNION {ToSet(t) : t \in Abs(e.tri)}  U0 == UNION {ToSet(t) : t \in F} IN U = U0 \cup (news \ rimmid))
     /\ Chk("circumcircle", IsDelaunay(F, xy) => IsDelaunay(Abs(e.tri), e.xy))
     /\ Load(e) /\ Free
TInterp(e) ==
  /\ Chk("interpolated values", Len(e.v1) = Len(e.v0) /\ \A v \in 1..Len(e.v0) :
        LET I == {i \in 1..Len(e.es) : e.es[i][3] = v-1} IN
        IF I = {} THEN e.v1[v] = 64 * e.v0[v]
        ELSE LET i == CHOOSE i \in I : TRUE IN 2 * e.v1[v] = e.v1[e.es[i][1]+1] + e.v1[e.es[i][2]+1])
  /\ UNCHANGED <<F, xy, tri, s2, cut, flg, plan>>

TraceInit == l = 1 /\ F = {} /\ xy = <<>> /\ tri = <<>> /\ s2 = <<>> /\ cut = {} /\ flg = <<>> /\ plan = <<>>
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Start" /\ TStart(e)
     \/ e.ev = "Insert" /\ TInsert(e)
     \/ e.ev = "Restore" /\ TRestore(e)
     \/ e.ev = "Perturb" /\ TPerturb(e)
     \/ e.ev = "Around" /\ TAround(e)
     \/ e.ev = "Force" /\ TForce(e)
     \/ e.ev = "Flag" /\ TFlag(e)
     \/ e.ev = "DelTri" /\ TDelTri(e)
     \/ e.ev = "DelPts" /\ TDelPts(e)
     \/ e.ev = "Plan" /\ TPlan(e)
     \/ e.ev = "Refine" /\ TRefine(e)
     \/ e.ev = "Interp" /\ TInterp(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
