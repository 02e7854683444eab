--------------------------- MODULE MeshConnTrace ---------------------------
EXTENDS MeshConn, TraceBase
VARIABLE l
tvars == <<l, cvars>>
Row(ind, a, p) == SubSeq(a, ind[p+1] + 1, ind[p+2])
JA(ind, a, n) == /\ Chk("index size", Len(ind) = n + 1 /\ ind[1] = 0 /\ ind[n+1] = Len(a))
                 /\ Chk("index order", \A p \in 1..n : ind[p] <= ind[p+1])
RowsAre(ind, a, n, S(_)) ==
  /\ JA(ind, a, n)
  /\ Chk("rows", \A p \in 0..(n-1) : LET r == Row(ind, a, p) IN NoDup(r) /\ ToSet(r) = S(p))
TMesh(e) ==
  /\ NP' = e.np
  /\ M' = [i \in 1..Len(e.els) |-> [k |-> e.els[i][1], v |-> SubSeq(e.els[i], 2, Len(e.els[i]))]]
\* the mixed-element container after one batch was added
TAdd(e) ==
  LET nn == NNode(e.k)  nb == Len(e.in) \div nn
      Mn == M \o [i \in 1..nb |-> [k |-> e.k, v |-> SubSeq(e.in, (i-1)*nn + 1, i*nn)]]
  IN /\ M' = Mn /\ NP' = NP
     /\ Chk("types", e.ty = [i \in 1..Len(Mn) |-> Mn[i].k])
     /\ JA(e.ind, e.el, Len(Mn))
     /\ Chk("elements", \A i \in 1..Len(Mn) : Row(e.ind, e.el, i-1) = Mn[i].v)
SideOK(A, n, i, m) == IF m = -1 THEN A[n][i] = {} ELSE (m + 1) \in A[n][i]
TElSuP(e) == RowsAre(e.ind, e.a, NP, LAMBDA p : {i - 1 : i \in ElSuP(p)})
TPSuP(e) == RowsAre(e.ind, e.a, NP, LAMBDA p : PSuP(p))
TElSuEl(e) ==
  LET ns == NSide(M[1].k)  A == AcrossTab IN
  /\ Chk("table size", Len(e.a) = NE * ns)
  /\ Chk("element across", \A n \in 1..NE : \A i \in 1..ns : SideOK(A, n, i, e.a[(n-1)*ns + i]))
TEdges(e) ==
  LET ED == AllEdges IN
  RowsAre(e.ind, e.a, NP, LAMBDA p : {q \in 0..(NP-1) : {p, q} \in ED /\ q # p /\ (e.both = 1 \/ q > p)})
TLines(e) ==
  LET n == Len(e.a) \div 2  L == [i \in 1..n |-> {e.a[2*i-1], e.a[2*i]}] IN
  Chk("lines", Len(e.a) = 2 * n /\ NoDup(L) /\ ToSet(L) = AllEdges)
TUnidir(e) == RowsAre(e.ind, e.a, NP, LAMBDA p : {q \in PSuP(p) : q > p})
\* operations on a jagged array given as rows
TJagged(e) ==
  LET n == Len(e.ind0) - 1  R(p) == Row(e.ind0, e.a0, p)  N == [p \in 0..(n-1) |-> ToSet(R(p))] IN
  IF e.op = "sort" THEN Chk("sorted rows", e.ind = e.ind0 /\ Len(e.a) = Len(e.a0) /\ \A p \in 0..(n-1) :
        LET r == Row(e.ind, e.a, p) IN SameBag(r, R(p)) /\ \A i \in 1..(Len(r)-1) : r[i] <= r[i+1])
  ELSE IF e.op = "diag" THEN RowsAre(e.ind, e.a, n, LAMBDA p : N[p] \cup {p})
  ELSE IF e.op = "extend" THEN RowsAre(e.ind, e.a, n, LAMBDA p : TwoStep(N, p))
  ELSE RowsAre(e.ind, e.a, n, LAMBDA p : {q \in N[p] : q > p})
\* one quad per pair of triangles sharing an edge: the two far corners, then the edge
TDihedral(e) ==
  LET nq == Len(e.a) \div 4
      A == AcrossTab
      Want == {<<n, i>> \in (1..NE) \X (1..3) : A[n][i] # {}}
      Q(k) == SubSeq(e.a, 4*k-3, 4*k)
      Tri(a, b, c) == \E n \in 1..NE : M[n].v \in {<<a,b,c>>, <<b,c,a>>, <<c,a,b>>}
  IN Chk("dihedral quads", /\ Len(e.a) = 4 * nq /\ 2 * nq = Cardinality(Want)
        /\ NoDup([k \in 1..nq |-> {Q(k)[3], Q(k)[4]}])
        /\ \A k \in 1..nq : Tri(Q(k)[1], Q(k)[3], Q(k)[4]) /\ Tri(Q(k)[2], Q(k)[4], Q(k)[3]))
\* both triangles of a quad keep its orientation and join along one diagonal
Half(q, a, b) == LET D(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}  R(s) == {<<x[2], x[1]>> : x \in s}
                     S == D(a) \cup D(b)  C == {<<q[i], q[(i % 4) + 1]>> : i \in 1..4}
                 IN Cardinality(S) = 6 /\ C \subseteq S /\ S \ C = R(S \ C)
TQuad2Tri(e) ==
  Chk("triangles of quads", Len(e.a) = 6 * NE /\ \A n \in 1..NE : Half(M[n].v, SubSeq(e.a, 6*n-5, 6*n-3), SubSeq(e.a, 6*n-2, 6*n)))
TFlipTri(e) ==
  Chk("flipped", Len(e.a) = 3 * NE /\ \A n \in 1..NE : LET t == SubSeq(e.a, 3*n-2, 3*n)  v == M[n].v IN v \in {<<t[3], t[2], t[1]>>, <<t[2], t[1], t[3]>>, <<t[1], t[3], t[2]>>})
TRing(e) ==
  /\ JA(e.ind, e.a, NP)
  /\ Chk("ring", \A p \in 0..(NP-1) : LET r == Row(e.ind, e.a, p)  n == Len(r) IN
        /\ NoDup(r) /\ ToSet(r) = PSuP(p)
        /\ \/ \A i \in 1..n : \E m \in ElSuP(p) : VtxOf(M[m]) = {p, r[i], r[(i % n) + 1]})
TAdjEdge(e) ==
  Chk("matching side", \A n \in 1..NE : \A i \in 1..3 : LET m == e.el[3*(n-1)+i]  j == e.a[3*(n-1)+i] IN
     m # -1 => LET s == SideV(M[n], i) IN IF \E x \in 1..3 : SideV(M[m+1], x) = <<s[2], s[1]>> THEN SideV(M[m+1], j+1) = <<s[2], s[1]>> ELSE j = -1)
THair(e) ==
  LET n == e.root[Len(e.root)]  In(h, p) == e.root[h] <= p /\ p < e.root[h+1]
      Near(p, q) == p # q /\ p - q \in -2..2 /\ \E h \in 1..(Len(e.root)-1) : In(h, p) /\ In(h, q)
  IN RowsAre(e.ind, e.a, n, LAMBDA p : {q \in 0..(n-1) : Near(p, q)})
-----------------------------------------------------------------------------
\* mixed meshes
MixSides == UNION {{<<n, i>> : i \in 1..NSide(M[n].k)} : n \in 1..NE}
TMixRel(e) ==
  LET A == AcrossTab IN
  /\ Chk("side counts", Len(e.ind) = NE + 1 /\ e.ind[1] = 0 /\ \A n \in 1..NE : e.ind[n+1] - e.ind[n] = NSide(M[n].k))
  /\ Chk("relation size", Len(e.rel) = 2 * e.ind[NE+1])
  /\ Chk("element across", \A n \in 1..NE : \A i \in 1..NSide(M[n].k) :
        LET x == 2 * (e.ind[n] + i - 1)  m == e.rel[x+1]  j == e.rel[x+2]
        IN SideOK(A, n, i, m) /\ (m # -1 => (j + 1) \in SideAt(m + 1, SideSet(M[n], i))))
KindOfSide(s) == IF Len(s) = 2 THEN LINE ELSE IF Len(s) = 3 THEN TRI ELSE QUAD
Cyc(s) == {[j \in 1..Len(s) |-> s[((j + r) % Len(s)) + 1]] : r \in 0..(Len(s)-1)}
TBound(e) ==
  LET nb == Len(e.ty)  B == TLCEval([i \in 1..nb |-> Row(e.ind, e.el, i-1)])  A == AcrossTab
      W == TLCEval({x \in TLCEval(MixSides) : A[x[1]][x[2]] = {}})
      \* sides up to where their listing starts: the smallest vertex first
      Canon(s) == CHOOSE t \in Cyc(s) : \A i \in 2..Len(t) : t[1] < t[i]
      WB == {Canon(SideV(M[x[1]], x[2])) : x \in W}   \* all different: equal ones would face each other
      BB == TLCEval([i \in 1..nb |-> Canon(B[i])])
  IN /\ JA(e.ind, e.el, nb)
     /\ Chk("boundary types", \A i \in 1..nb : e.ty[i] = KindOfSide(B[i]))
     /\ Chk("boundary count", nb = Cardinality(W))
     /\ Chk("boundary sides", NoDup(BB) /\ ToSet(BB) = WB)
TGroup(e) ==
  /\ Chk("group count", e.n = Cardinality(Groups) /\ Len(e.a) = NE)
  /\ Chk("groups without gaps", ToSet(e.a) = 0..(e.n - 1))
  /\ Chk("same group iff chained", LET C == ClassTab IN \A n, m \in 1..NE : (e.a[n] = e.a[m]) = (m \in C[n]))
TMark(e) ==   \* flooding from one element over a two-sided relation
  LET C == Close({e.from + 1}) IN Chk("flooded", \A n \in 1..NE : e.a[n] = (IF n \in C THEN e.flag ELSE e.a0[n]))
TClip(e) ==
  LET S == {n \in 1..NE : e.grp[n] = e.g}
      Nth(i) == CHOOSE n \in S : Cardinality({m \in S : m < n}) = i - 1
  IN /\ Chk("clipped types", Len(e.ty) = Cardinality(S) /\ \A i \in 1..Len(e.ty) : e.ty[i] = M[Nth(i)].k)
     /\ JA(e.ind, e.el, Len(e.ty))
     /\ Chk("clipped elements", \A i \in 1..Len(e.ty) : Row(e.ind, e.el, i-1) = M[Nth(i)].v)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
TMixFlip(e) ==
  LET Off(n) == IF n = 1 THEN 0 ELSE e.ind[n] IN
  Chk("flipped elements", Len(e.a) = Len(e.el0) /\ \A n \in 1..NE : LET r == SubSeq(e.a, e.ind[n]+1, e.ind[n+1]) IN r \in Cyc(Rev(M[n].v)))
RECURSIVE TriBefore(_)
TriBefore(n) == IF n = 1 THEN 0 ELSE TriBefore(n-1) + (IF M[n-1].k = TRI THEN 1 ELSE 2)
TMixTri(e) ==
  /\ Chk("triangle count", Len(e.a) = 3 * TriBefore(NE + 1))
  /\ Chk("triangles", \A n \in 1..NE : LET o == 3 * TriBefore(n) IN
        IF M[n].k = TRI THEN SubSeq(e.a, o+1, o+3) \in Cyc(M[n].v)
        ELSE Half(M[n].v, SubSeq(e.a, o+1, o+3), SubSeq(e.a, o+4, o+6)))
\* separately indexed corners: every corner keeps its pair, and equal pairs share one vertex
TUnify(e) ==
  LET nc == Len(e.x) IN
  /\ Chk("corner count", Len(e.tri) = nc /\ Len(e.ux) = Len(e.ut))
  /\ Chk("corner in range", \A c \in 1..nc : e.tri[c] \in 0..(Len(e.ux)-1))
  /\ Chk("corner attributes", \A c \in 1..nc : e.ux[e.tri[c]+1] = e.x[c] /\ e.ut[e.tri[c]+1] = e.t[c])
  /\ Chk("no duplicate vertex", NoDup([i \in 1..Len(e.ux) |-> <<e.ux[i], e.ut[i]>>]) /\ Len(e.ux) = Cardinality({<<e.x[c], e.t[c]>> : c \in 1..nc}))
  /\ Chk("coordinates", /\ Len(e.px) = 3 * Len(e.ux) /\ Len(e.pt) = 2 * Len(e.ux)
        /\ (\A i \in 1..Len(e.ux) : \A d \in 1..3 : e.px[3*i-3+d] = e.vx[3*e.ux[i] + d])
        /\ (\A i \in 1..Len(e.ux) : \A d \in 1..2 : e.pt[2*i-2+d] = e.vt[2*e.ut[i] + d]))
-----------------------------------------------------------------------------
TraceInit == l = 1 /\ CInit
Query(e) ==
  CASE e.ev = "ElSuP" -> TElSuP(e) [] e.ev = "PSuP" -> TPSuP(e) [] e.ev = "ElSuEl" -> TElSuEl(e) [] e.ev = "Edges" -> TEdges(e)
    [] e.ev = "Lines" -> TLines(e) [] e.ev = "Unidir" -> TUnidir(e) [] e.ev = "Jagged" -> TJagged(e) [] e.ev = "Dihedral" -> TDihedral(e)
    [] e.ev = "Quad2Tri" -> TQuad2Tri(e) [] e.ev = "FlipTri" -> TFlipTri(e) [] e.ev = "Ring" -> TRing(e) [] e.ev = "AdjEdge" -> TAdjEdge(e)
    [] e.ev = "Hair" -> THair(e) [] e.ev = "MixRel" -> TMixRel(e) [] e.ev = "Bound" -> TBound(e) [] e.ev = "Group" -> TGroup(e)
    [] e.ev = "Mark" -> TMark(e) [] e.ev = "Clip" -> TClip(e) [] e.ev = "MixFlip" -> TMixFlip(e) [] e.ev = "MixTri" -> TMixTri(e)
    [] e.ev = "Unify" -> TUnify(e) [] OTHER -> FALSE
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     IF e.ev = "Mesh" THEN TMesh(e) ELSE IF e.ev = "Add" THEN TAdd(e) ELSE (Query(e) = TRUE) /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
