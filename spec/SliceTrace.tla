----------------------------- MODULE SliceTrace -----------------------------
EXTENDS Slice, TraceBase
VARIABLES l, T, V, X, Hs, S, C
\* X: vertex positions; Hs: heights; S: loops listed; C[t] = set of loops through t
tvars == <<l, T, V, X, Hs, S, C>>
Idx == 1..Len(T)
K == 840
\* position on the side s at height h, given in units of 1/K
OnSide(p, s, h) == LET a == V[s[1]+1]  b == V[s[2]+1] IN
  \A k \in 1..3 : p[k] * (b - a) = K * (X[s[1]+1][k] * (b - h) + X[s[2]+1][k] * (h - a))
SegOK(t, A, B, h) ==
  /\ Chk("triangle is cut", t \in Idx /\ Cut(T, V, t, h))
  /\ Chk("start of the segment on the side it enters by", \A s \in InS(T, V, t, h) : OnSide(A, s, h))
  /\ Chk("end of the segment on the side it leaves by", \A s \in OutS(T, V, t, h) : OnSide(B, s, h))
LoopOK(p) == LET h == Hs[p.h+1]  n == Len(p.tri) IN
  /\ Chk("height of the loop", p.h \in 0..(Len(Hs)-1))
  /\ \A i \in 1..n : SegOK(p.tri[i]+1, p.a[i], p.b[i], h)
  /\ Chk("consecutive segments share a side, and the loop closes", \A i \in 1..n : NextT(T, V, p.tri[i]+1, h) = {p.tri[IF i = n THEN 1 ELSE i+1]+1})
  /\ Chk("triangle once in the loop", NoDup(p.tri))
SliceOK(e) == /\ \A i \in 1..Len(e.cs) : LoopOK(e.cs[i])
  /\ \A k \in 1..Len(Hs) : LET L == {i \in 1..Len(e.cs) : e.cs[i].h = k-1} IN
     /\ Chk("triangle in two loops of the height", \A i \in L, j \in L : i # j => ToSet(e.cs[i].tri) \cap ToSet(e.cs[j].tri) = {})
     /\ Chk("cut triangles on a loop", UNION {{e.cs[i].tri[q]+1 : q \in 1..Len(e.cs[i].tri)} : i \in L} = {t \in Idx : Cut(T, V, t, Hs[k])} \ OpenT(T, V, Hs[k]))
\* ---- contour lines: what is cut strictly has its segment; segments along a side on the level stand once
ContOK(e) == LET h == e.h  st(t) == \E i \in 1..3, j \in 1..3 : V[T[t][i]+1] > h /\ V[T[t][j]+1] < h
                 al(t) == Cardinality({i \in 1..3 : V[T[t][i]+1] = h}) = 2 /\ \E i \in 1..3 : V[T[t][i]+1] < h
             IN /\ Chk("earlier segments kept", e.kept = 1)
                /\ Chk("triangle once", NoDup(e.tri))
                /\ Chk("crossed triangle has its segment", \A t \in Idx : (st(t) \/ al(t)) => t-1 \in ToSet(e.tri))
                /\ \A i \in 1..Len(e.tri) : SegOK(e.tri[i]+1, e.a[i], e.b[i], h)
\* ---- which loops meet through the mesh between their heights
Nei(t) == UNION {Across(T, s) : s \in Sides(T, t)}
RECURSIVE Flood(_, _)
Flood(A, U) == LET B == A \cup {t \in U : Nei(t) \cap A # {}} IN IF A = B THEN A ELSE Flood(B, U)
\* pieces of the surface between the heights: <<triangle, slab>>
NH == Len(Hs)
Slab(v) == Cardinality({k \in 1..NH : V[v+1] >= Hs[k]})
Lo(t) == Min({Slab(T[t][i]) : i \in 1..3})
Hi(t) == Max({Slab(T[t][i]) : i \in 1..3})
SideHas(s, b) == LET a == Slab(s[1])  c == Slab(s[2]) IN (a <= b /\ b <= c) \/ (c <= b /\ b <= a)
RECURSIVE Grow(_, _)
Grow(A, b) == LET B == A \cup UNION {UNION {Across(T, s) : s \in {s \in Sides(T, t) : SideHas(s, b)}} : t \in A} IN IF A = B THEN A ELSE Grow(B, b)
Join(G, i, j) == j-1 \in ToSet(G[i])
H(i) == S[i].h
ReebOK(e) ==
  LET G == e.con  n == Len(S)  L == 1..n
      once == (\A t \in Idx : Hi(t) - Lo(t) <= 1) /\ (\A k \in 1..NH : OpenT(T, V, Hs[k]) = {})
      U == {t \in Idx : C[t] = {}}
      near(F) == UNION {C[t] : t \in UNION {Nei(q) : q \in F}}
      thru(i, j) == \E t \in Idx : i \in C[t] /\ j \in C[t]
      side(i, j) == \E t \in Idx : i \in C[t] /\ \E q \in Nei(t) : j \in C[q]
      fl(i, j) == \E t \in U : LET F == Flood({t}, U)  N == near(F) IN i \in N /\ j \in N
      same(i, j) == \E t \in U : LET F == Flood({t}, U)  N == near(F) IN i \in N /\ j \in N /\ \A k \in N : H(k) = H(i)
      meet(i, j) == LET b == Cardinality({k \in 1..NH : Hs[k] <= Hs[H(i)+1] /\ Hs[k] <= Hs[H(j)+1]}) IN \E t \in Idx : i \in C[t] /\ LET F == Grow({t}, b) IN \E q \in F : j \in C[q]
  IN /\ Chk("one set per loop, of loops", Len(G) = n /\ \A i \in L : ToSet(G[i]) \subseteq 0..(n-1))
     /\ Chk("joined both ways", \A i \in L, j \in L : Join(G, i, j) => Join(G, j, i) /\ i # j)
     /\ Chk("only loops of the same or adjacent heights", \A i \in L, j \in L : Join(G, i, j) => H(i) - H(j) \in -1..1)
     /\ Chk("loops through one triangle at adjacent heights joined", \A i \in L, j \in L : (H(j) = H(i)+1 /\ thru(i, j)) => Join(G, i, j))
     /\ (IF once
        THEN /\ Chk("loops of adjacent heights with nothing between them joined", \A i \in L, j \in L : (H(j) = H(i)+1 /\ (side(i, j) \/ fl(i, j))) => Join(G, i, j))
             /\ Chk("loops of one height joined beyond the last", \A i \in L, j \in L : (i < j /\ H(i) = H(j)) => (Join(G, i, j) = same(i, j)))
             /\ Chk("joined loops meet between their heights", \A i \in L, j \in L : (H(j) = H(i)+1 /\ Join(G, i, j)) => meet(i, j))
        ELSE TRUE)
TraceInit == l = 1 /\ T = <<>> /\ V = <<>> /\ X = <<>> /\ Hs = <<>> /\ S = <<>> /\ C = <<>>
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Mesh" /\ T' = e.tri /\ V' = e.lev /\ X' = e.x /\ Hs' = e.hs /\ S' = <<>> /\ C' = <<>>
     \/ e.ev = "Slice" /\ (SliceOK(e) = TRUE) /\ S' = e.cs /\ C' = [t \in Idx |-> {i \in 1..Len(e.cs) : \E q \in 1..Len(e.cs[i].tri) : e.cs[i].tri[q] = t-1}] /\ UNCHANGED <<T, V, X, Hs>>
     \/ e.ev = "Cont" /\ (ContOK(e) = TRUE) /\ UNCHANGED <<T, V, X, Hs, S, C>>
     \/ e.ev = "Reeb" /\ (ReebOK(e) = TRUE) /\ UNCHANGED <<T, V, X, Hs, S, C>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
