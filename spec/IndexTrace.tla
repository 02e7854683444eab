----------------------------- MODULE IndexTrace -----------------------------
EXTENDS Index, TraceBase
VARIABLES l, X, E, g, H
tvars == <<l, X, E, g, H>>
n == Len(E)
O == 1..n
Pt(o, i) == X[E[o][i]+1]
TriF(o, q) == PtTriF(q, Pt(o, 1), Pt(o, 2), Pt(o, 3))
CloseF(f, d2k) == LET e == 1000*f[1] - d2k*f[2] IN e <= f[2] /\ -e <= f[2]
NearOK(e) == Chk("a point of the set", \E i \in 1..Len(X) : X[i] = e.got) /\ Chk("smallest distance", \A i \in 1..Len(X) : D2(X[i], e.q) >= D2(e.got, e.q))
BestF(q, S) == MinF({TriF(o, q) : o \in S})
CandOK(e) == /\ Chk("candidates are triangles", \A i \in 1..Len(e.cand) : e.cand[i] \in 0..(n-1))
             /\ LET f == BestF(e.q, O) IN Chk("nearest triangle is a candidate", \E i \in 1..Len(e.cand) : LET k == TriF(e.cand[i]+1, e.q) IN LeF(k, f))
NearTriOK(e) == LET S == IF e.part = <<>> THEN O ELSE {e.part[i]+1 : i \in 1..Len(e.part)} IN
             /\ Chk("nearest triangle", e.tri+1 \in S)
             /\ LET f == BestF(e.q, S) IN Chk("smallest distance", CloseF(f, e.d2k)) /\ Chk("distance of the triangle", CloseF(TriF(e.tri+1, e.q), e.d2k))
\* ---- triangles on a line
den(o, e) == Dot(Cross(Sub(Pt(o, 2), Pt(o, 1)), Sub(Pt(o, 3), Pt(o, 1))), e.d)
num(o, e) == Dot(Cross(Sub(Pt(o, 2), Pt(o, 1)), Sub(Pt(o, 3), Pt(o, 1))), Sub(Pt(o, 1), e.q))
side(o, i, j, e) == Sgn(Dot(Cross(Sub(Pt(o, i), e.q), Sub(Pt(o, j), e.q)), e.d))
Met(o, e) == LET D == {side(o, 1, 2, e), side(o, 2, 3, e), side(o, 3, 1, e)} IN IF 1 \in D /\ -1 \in D THEN 0 ELSE IF 0 \in D THEN -1 ELSE 1
dep(o, e) == IF den(o, e) > 0 THEN <<num(o, e), den(o, e)>> ELSE <<-num(o, e), -den(o, e)>>
LineOK(e) == /\ Chk("triangle once", NoDup(e.list) /\ \A i \in 1..Len(e.list) : e.list[i] \in 0..(n-1))
             /\ \A o \in O : LET w == Met(o, e) IN (Chk("triangle on the line missed", w = 1 => o-1 \in ToSet(e.list))) /\ (Chk("triangle off the line", w = 0 => o-1 \notin ToSet(e.list)))
EqF(a, b) == LeF(a, b) /\ LeF(b, a)
AheadOK(e) == \* triangles by depth; of those at the same depth one may stand for all
  LET S == e.part  C == IF S = <<>> THEN O ELSE {S[i]+1 : i \in 1..Len(S)} IN
  /\ Chk("triangle once", NoDup(e.list) /\ \A i \in 1..Len(e.list) : e.list[i]+1 \in C)
  /\ \A i \in 1..Len(e.list) : LET o == e.list[i]+1 IN (Chk("triangle off the ray", Met(o, e) # 0 /\ (Met(o, e) = 1 => dep(o, e)[1] >= 0)))
  /\ \A o \in C : (Chk("triangle on the ray missed", (Met(o, e) = 1 /\ dep(o, e)[1] > 0) => \E i \in 1..Len(e.list) : e.list[i] = o-1 \/ (Met(e.list[i]+1, e) = 1 /\ EqF(dep(e.list[i]+1, e), dep(o, e))) \/ Met(e.list[i]+1, e) = -1))
  /\ (Chk("order of depth", \A i \in 1..Len(e.list) : \A j \in 1..(i-1) : (Met(e.list[i]+1, e) = 1 /\ Met(e.list[j]+1, e) = 1) => LeF(dep(e.list[j]+1, e), dep(e.list[i]+1, e))))
\* ---- triangles connected with a start triangle inside a sphere (radius odd/2)
Adj(o, p) == o # p /\ \E i \in 1..3, j \in 1..3 : {E[o][i], E[o][((i%3)+1)]} = {E[p][j], E[p][((j%3)+1)]}
RECURSIVE Reach(_, _)
Reach(S, In) == LET T == S \cup {p \in In : \E o \in S : Adj(o, p)} IN IF T = S THEN S ELSE Reach(T, In)
Lt(o, e) == LET f == TriF(o, e.q) IN 4*f[1] < e.r*e.r*f[2]
Le(o, e) == LET f == TriF(o, e.q) IN 4*f[1] <= e.r*e.r*f[2]
MustC(e) == IF Lt(e.s+1, e) THEN Reach({e.s+1}, {o \in O : Lt(o, e)}) ELSE {}
MayC(e) == IF Le(e.s+1, e) THEN Reach({e.s+1}, {o \in O : Le(o, e)}) ELSE {}
ThereOK(e) == LET M == MustC(e)  Y == MayC(e)
                  in(i, S) == e.smp[i][1]+1 \in S /\ 4*D2(X[e.smp[i][2]+1], e.q) < e.r*e.r
              IN (Chk("sample within the radius missed", (\E i \in 1..Len(e.smp) : in(i, M)) => e.got = 1)) /\ (Chk("no sample within the radius", e.got = 1 => \E i \in 1..Len(e.smp) : in(i, Y)))
\* ---- tetrahedron that holds a position
Vol(a, b, c, d) == Dot(Cross(Sub(b, a), Sub(c, a)), Sub(d, a))
InTet(o, q) == LET a == Pt(o, 1)  b == Pt(o, 2)  c == Pt(o, 3)  d == Pt(o, 4)  s == Sgn(Vol(a, b, c, d)) IN
   s*Vol(q, b, c, d) >= 0 /\ s*Vol(a, q, c, d) >= 0 /\ s*Vol(a, b, q, d) >= 0 /\ s*Vol(a, b, c, q) >= 0
TetOK(e) == IF e.t = -1 THEN Chk("element with the position missed", \A o \in O : ~InTet(o, e.q)) ELSE Chk("element without the position", e.t+1 \in O /\ InTet(e.t+1, e.q)) /\ Chk("coordinates in the element", e.bad = 0)
ConnOK(e) == LET got == {e.list[i]+1 : i \in 1..Len(e.list)}
             IN Chk("triangle once", NoDup(e.list)) /\ Chk("connected triangle missed", MustC(e) \subseteq got) /\ Chk("triangle not connected inside the sphere", got \subseteq MayC(e))
\* ---- uniform grid
GCell(p) == CellAt(p, g.lo, g.hi, g.h)
GIx(p) == CellIx(GCell(p), g.lo, g.hi, g.h)
NG == CellsAlong(g.lo[1], g.hi[1], g.h) * CellsAlong(g.lo[2], g.hi[2], g.h) * CellsAlong(g.lo[3], g.hi[3], g.h)
PostOK(e) == /\ Chk("object once", Len(e.obj) = Len(X) /\ ToSet(e.obj) = 0..(Len(X)-1))
             /\ Chk("table of cells", Len(e.ind) = NG + 1 /\ e.ind[1] = 0 /\ e.ind[NG+1] = Len(X) /\ \A i \in 1..NG : e.ind[i] <= e.ind[i+1])
             /\ Chk("objects of the cell", \A c \in 1..NG : \A i \in (e.ind[c]+1)..(e.ind[c+1]) : GIx(X[e.obj[i]+1]) = c-1)
RingOK(e) == Chk("object once", NoDup(e.list)) /\ Chk("objects of the cells around", {e.list[i] : i \in 1..Len(e.list)} = {i-1 : i \in {i \in 1..Len(X) : Ring(GCell(X[i]), GCell(e.q))}})
\* ---- weights of the grid kernel: k in eighths of a cell, in units of 1/3072 and 1/128
Abs(k) == IF k < 0 THEN -k ELSE k
W(k) == LET a == Abs(k) IN IF a < 8 THEN 3*a*a*a - 48*a*a + 2048 ELSE IF a < 16 THEN -(a*a*a) + 48*a*a - 768*a + 4096 ELSE 0
DW(k) == LET a == Abs(k)  s == Sgn(k) IN s * (IF a < 8 THEN 3*a*a - 32*a ELSE IF a < 16 THEN -(a*a) + 32*a - 256 ELSE 0)
KerOK(e) == Chk("kernel weight", e.w = W(e.k)) /\ Chk("slope of the kernel", e.dw = DW(e.k))

TraceInit == l = 1 /\ X = <<>> /\ E = <<>> /\ g = <<>> /\ H = <<>>
Same == UNCHANGED <<X, E, g, H>>
Has1(c) == \E i \in 1..Len(H) : H[i] = c
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Pts" /\ X' = e.x /\ E' = e.el /\ UNCHANGED <<g, H>>
     \/ e.ev = "Near" /\ (NearOK(e) = TRUE) /\ Same
     \/ e.ev = "Cand" /\ (CandOK(e) = TRUE) /\ Same
     \/ e.ev = "NearTri" /\ (NearTriOK(e) = TRUE) /\ Same
     \/ e.ev = "Line" /\ (LineOK(e) = TRUE) /\ Same
     \/ e.ev = "Ahead" /\ (AheadOK(e) = TRUE) /\ Same
     \/ e.ev = "Conn" /\ (ConnOK(e) = TRUE) /\ Same
     \/ e.ev = "There" /\ (ThereOK(e) = TRUE) /\ Same
     \/ e.ev = "Tet" /\ (TetOK(e) = TRUE) /\ Same
     \/ e.ev = "Grid" /\ g' = [lo |-> e.lo, hi |-> e.hi, h |-> e.h] /\ UNCHANGED <<X, E, H>>
     \/ e.ev = "Cell" /\ (Chk("cell of the position", e.ix = GIx(e.q)) = TRUE) /\ Same
     \/ e.ev = "Post" /\ (PostOK(e) = TRUE) /\ Same
     \/ e.ev = "Ring" /\ (RingOK(e) = TRUE) /\ Same
     \/ e.ev = "HNew" /\ H' = <<>> /\ UNCHANGED <<X, E, g>>
     \/ e.ev = "HPut" /\ H' = Append(H, e.q) /\ UNCHANGED <<X, E, g>>
     \/ e.ev = "HGet" /\ (Chk("objects stored for the cell", e.n = Cardinality({i \in 1..Len(H) : H[i] = e.q}) /\ (e.eq = 1) = (e.q = e.p)) = TRUE) /\ Same
     \/ e.ev = "Ker" /\ (KerOK(e) = TRUE) /\ Same
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
