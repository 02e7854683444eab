------------------------------ MODULE PolyTrace ------------------------------
(* C02: recorded runs of the polygon checker, the orientation repair, the    *)
(* outline resampling and the mesher against Geo2's notion of a region.      *)
EXTENDS Geo2, TraceBase
VARIABLES l, loops, ixs     \* current input: loops of points, and of point indices (as given)
tvars == <<l, loops, ixs>>

RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s)+1-i]]
RotEq(s, t) == Len(s) = Len(t) /\ \E k \in 0..(Len(s)-1) : \A i \in 1..Len(s) : t[i] = s[((i+k-1) % Len(s)) + 1]
\* orientation: first loop ccw, others cw
Oriented(k) == LET a == Area2(loops[k]) IN IF (a > 0) = (k = 1) THEN ixs[k] ELSE RevSeq(ixs[k])
OrientedAll == [k \in 1..Len(ixs) |-> Oriented(k)]
NPts == LET S == {Len(ixs[k]) : k \in 1..Len(ixs)} IN Cardinality(UNION {ToSet(ixs[k]) : k \in 1..Len(ixs)})
AllPts == UNION {ToSet(ixs[k]) : k \in 1..Len(ixs)}

TInput(e) == loops' = e.loops /\ ixs' = e.ixs
TCheck(e) == /\ Chk("region must be accepted", ValidRegion(loops) => e.ret = 1)
             /\ Chk("region must be refused", InvalidRegion(loops) => e.ret = 0)
             /\ UNCHANGED <<loops, ixs>>
TFix(e) == /\ Chk("orientation", Len(e.out) = Len(ixs) /\ \A k \in 1..Len(ixs) : RotEq(Oriented(k), e.out[k]))
           /\ UNCHANGED <<loops, ixs>>

InRange(e) == /\ Chk("face indices", \A i \in 1..Len(e.tri) : Len(e.tri[i]) = 3 /\ \A k \in 1..3 : e.tri[i][k] \in 0..(Len(e.xy)-1))
\* editable-mesh tables agree with the faces
Tables(e) ==
  /\ Chk("table sizes", Len(e.s2) = Len(e.tri) /\ Len(e.pe) = Len(e.xy) /\ Len(e.pd) = Len(e.xy))
  /\ Chk("neighbours", \A i \in 1..Len(e.tri) : \A k \in 1..3 :
        LET a == e.tri[i][(k % 3) + 1]  b == e.tri[i][((k+1) % 3) + 1]  n == e.s2[i][k]
        IN IF n = -1 THEN <<b, a>> \notin AllSegs(e.tri)
           ELSE n \in 0..(Len(e.tri)-1) /\ <<b, a>> \in TriSegs(e.tri[n+1]))
  /\ Chk("vertex reference", \A v \in 1..Len(e.pe) : e.pe[v] \in 0..(Len(e.tri)-1) /\ e.pd[v] \in 0..2 /\ e.tri[e.pe[v]+1][e.pd[v]+1] = v-1)

\* no resampling, no interior points: vertices are the input vertices
TMesh(e) ==
  /\ InRange(e) /\ Tables(e)
  /\ Chk("points kept", Len(e.xy) = NPts /\ \A k \in 1..Len(ixs) : \A i \in 1..Len(ixs[k]) : e.xy[ixs[k][i]+1] = loops[k][i])
  /\ Chk("exact cover", Covers(e.tri, e.xy, OrientedAll))
  /\ UNCHANGED <<loops, ixs>>

\* resampled outline (coordinates scaled by e.s) and, if e.face = 1, interior points
Sc(p, s) == <<p[1]*s, p[2]*s>>
SameDir(a, b, p, q) == (b[1]-a[1])*(q[1]-p[1]) + (b[2]-a[2])*(q[2]-p[2]) > 0
TGen(e) ==
  /\ InRange(e) /\ Tables(e)
  /\ Chk("faces ccw", e.pos = 1)
  /\ Chk("edge used twice", Cardinality(AllSegs(e.tri)) = 3 * Len(e.tri))
  /\ Chk("input points kept", \A k \in 1..Len(ixs) : \A i \in 1..Len(ixs[k]) : e.xy[ixs[k][i]+1] = Sc(loops[k][i], e.s))
  /\ LET D == {s \in AllSegs(e.tri) : <<s[2], s[1]>> \notin AllSegs(e.tri)}
         B == {s[1] : s \in D}
         Dir(k) == (Area2(loops[k]) > 0) = (k = 1)
         DSegs == UNION {{IF Dir(k) THEN <<Sc(loops[k][i], e.s), Sc(Nxt(loops[k], i), e.s)>> ELSE <<Sc(Nxt(loops[k], i), e.s), Sc(loops[k][i], e.s)>> : i \in 1..Len(loops[k])} : k \in 1..Len(loops)}
     IN /\ Chk("outline point exact", \A v \in B : e.xy[v+1][1] # 1000000007 /\ e.xy[v+1][2] # 1000000007)
        /\ Chk("outline edges", \A s \in D : \E g \in DSegs : OnSeg(g[1], g[2], e.xy[s[1]+1]) /\ OnSeg(g[1], g[2], e.xy[s[2]+1]) /\ SameDir(g[1], g[2], e.xy[s[1]+1], e.xy[s[2]+1]))
        /\ Chk("outline chain", Cardinality(D) = Cardinality(B) /\ {s[2] : s \in D} = B /\ AllPts \subseteq B)
        /\ Chk("outline spacing", e.len > 0 => \A s \in D : Dist2(e.xy[s[1]+1], e.xy[s[2]+1]) <= ((e.len * e.s) \div 4) * ((e.len * e.s) \div 4) + e.s)
        /\ Chk("no interior points", e.face = 0 => Cardinality(B) = Len(e.xy))
  /\ UNCHANGED <<loops, ixs>>
\* the mesher did not run: only for inputs that need not be accepted
TNone(e) == Chk("valid region not meshed", ~ValidRegion(loops)) /\ UNCHANGED <<loops, ixs>>

\* resampled loops: original points in order, added points strictly in order along each segment
TResample(e) ==
  /\ Chk("loop sizes", Len(e.out) = Len(ixs))
  /\ Chk("every point once", LET S == UNION {ToSet(e.out[k]) : k \in 1..Len(e.out)} IN S = 0..(Len(e.xy)-1))
  /\ Chk("points kept", \A k \in 1..Len(ixs) : \A i \in 1..Len(ixs[k]) : e.xy[ixs[k][i]+1] = Sc(loops[k][i], e.s))
  /\ Chk("loop chain", \A k \in 1..Len(ixs) :
       LET o == e.out[k]  keep == SelectSeq(o, LAMBDA v : v \in ToSet(ixs[k]))
       IN /\ NoDup(o) /\ RotEq(IF e.fixed = 1 THEN Oriented(k) ELSE ixs[k], keep)
          /\ \A i \in 1..Len(o) : \E j \in 1..Len(loops[k]) :
               LET a == Sc(loops[k][j], e.s)  b == Sc(Nxt(loops[k], j), e.s) IN
               OnSeg(a, b, e.xy[o[i]+1]) /\ OnSeg(a, b, e.xy[Nxt(o, i)+1])
               /\ Dist2(e.xy[o[i]+1], e.xy[Nxt(o, i)+1]) <= ((e.len * e.s) \div 4) * ((e.len * e.s) \div 4) + e.s)
  /\ UNCHANGED <<loops, ixs>>

TraceInit == l = 1 /\ loops = <<>> /\ ixs = <<>>
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Input" /\ TInput(e)
     \/ e.ev = "Check" /\ TCheck(e)
     \/ e.ev = "Fix" /\ TFix(e)
     \/ e.ev = "Resample" /\ TResample(e)
     \/ e.ev = "Mesh" /\ TMesh(e)
     \/ e.ev = "Gen" /\ TGen(e)
     \/ e.ev = "None" /\ TNone(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
