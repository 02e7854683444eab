---------------------------- MODULE SubdivTrace ----------------------------
EXTENDS Subdiv, TraceBase
VARIABLES l, P, O     \* O: what the last subdivision was computed from and its numberings
tvars == <<l, cvars, P, O>>
Row(ind, a, p) == SubSeq(a, ind[p+1] + 1, ind[p+2])
TMesh(e) == /\ NP' = e.np /\ P' = e.p
            /\ M' = [i \in 1..Len(e.els) |-> [k |-> e.els[i][1], v |-> SubSeq(e.els[i], 2, Len(e.els[i]))]]
            /\ O' = <<>>
\* only new positions for the present mesh
TPos(e) == P' = e.p /\ UNCHANGED <<M, NP, O>>
MinOf(s) == CHOOSE p \in s : \A q \in s : p <= q
\* edge number in the jagged table (or 0)
EIdx(ind, a, s) == LET p == MinOf(s)  q == CHOOSE x \in s : x # p  R == {i \in (ind[p+1]+1)..ind[p+2] : a[i] = q} IN IF R = {} THEN 0 ELSE CHOOSE i \in R : TRUE
QuadsOfEdges(e, EO, ne) ==
  /\ Len(e.ef) = 4 * ne
  /\ LET EV == TLCEval([v \in 0..(NP-1) |-> {n \in 1..NE : v \in VtxOf(M[n])}]) IN
     \A i \in 1..ne : LET p == e.ef[4*i-3]  q == e.ef[4*i-2]  R == {e.ef[4*i-1], e.ef[4*i]} IN
       /\ p \in 0..(NP-1) /\ q \in 0..(NP-1) /\ p # q /\ EIdx(e.ind, e.a, {p, q}) = i
       /\ LET T == {n \in EV[p] : {p, q} \in EO[n]} IN
          /\ R \ {-1} = {n - 1 : n \in T} /\ (Cardinality(T) = 2 => e.ef[4*i-1] # e.ef[4*i]) /\ (Cardinality(T) = 1 => e.ef[4*i] = -1)
NP1(e) == NP + Len(e.a) + Len(e.f) \div 4 + (IF M[1].k = TET THEN 0 ELSE NE)
SubOK(e) ==
  LET k == M[1].k
      EO == TLCEval([n \in 1..NE |-> EdgesOf(M[n])])
      ED == TLCEval(UNION {EO[n] : n \in 1..NE})  ne == Len(e.a)
  IN
  /\ Chk("edge numbering", /\ Len(e.ind) = NP + 1 /\ e.ind[1] = 0 /\ e.ind[NP+1] = ne /\ (\A p \in 1..NP : e.ind[p] <= e.ind[p+1])
        /\ Cardinality(ED) = ne
        /\ \A p \in 0..(NP-1) : \A i \in (e.ind[p+1]+1)..e.ind[p+2] : p < e.a[i] /\ {p, e.a[i]} \in ED /\ \A j \in (e.ind[p+1]+1)..(i-1) : e.a[i] # e.a[j])
  /\ LET nf == IF k = HEX THEN Len(e.f) \div 4 ELSE 0
         FQ == TLCEval([i \in 1..nf |-> SubSeq(e.f, 4*i-3, 4*i)])
         FR == TLCEval([i \in 1..nf |-> Range(FQ[i])])
         FS == IF k = HEX THEN TLCEval(FaceSets) ELSE {}
         FIdx(s) == LET R == {i \in 1..nf : FR[i] = s} IN IF R = {} THEN 0 ELSE CHOOSE i \in R : TRUE
         c0 == TLCEval(NP + ne + nf)
         np1 == TLCEval(c0 + (IF k = TET THEN 0 ELSE NE))
         nc == IF k = QUAD THEN 4 ELSE 8  nn == NNode(k)
         Ch(n) == [i \in 1..nc |-> [k |-> k, v |-> SubSeq(e.el, ((n-1)*nc + i - 1)*nn + 1, ((n-1)*nc + i)*nn)]]
         EN(s) == NP + EIdx(e.ind, e.a, s) - 1
         FN(s) == NP + ne + FIdx(s) - 1
         Same(n, d) == {Orient(x) : x \in Range(Ch(n))} = {Orient(x) : x \in Range(ChildrenOf(n, EN, FN, c0 + n - 1, d))}
         OR == IF k = HEX THEN TLCEval(UNION {Orient(M[n]) : n \in 1..NE}) ELSE {}
     IN
     /\ Chk("faces", (k = HEX) => /\ Len(e.f) = 4*nf /\ nf = Cardinality(FS) /\ (\A i \in 1..nf : FR[i] \in FS /\ CanonS(FQ[i]) \in OR) /\ \A s \in FS : FIdx(s) # 0)
     /\ Chk("children count", Len(e.el) = nc * nn * NE)
     /\ Chk("vertex range", \A i \in 1..Len(e.el) : e.el[i] \in 0..(np1 - 1))
     /\ Chk("children", \A n \in 1..NE : IF k = TET THEN \E d \in 1..3 : Same(n, d) ELSE Same(n, 1))
     /\ Chk("quads of edges", (k = QUAD) => QuadsOfEdges(e, EO, ne))
TSub(e) ==
  /\ SubOK(e) = TRUE      \* "= TRUE" makes TLC evaluate the definitions inside once
  /\ O' = LET nf == Len(e.f) \div 4 IN
          [els |-> M, np |-> NP, ind |-> e.ind, a |-> e.a, fr |-> [i \in 1..nf |-> Range(SubSeq(e.f, 4*i-3, 4*i))],
           c0 |-> NP + Len(e.a) + nf, p |-> P, np1 |-> NP1(e), eo |-> [n \in 1..NE |-> EdgesOf(M[n])]]
  /\ M' = LET k == M[1].k  nn == NNode(k)  nc == IF k = QUAD THEN 4 ELSE 8 IN [i \in 1..(nc*NE) |-> [k |-> k, v |-> SubSeq(e.el, (i-1)*nn + 1, i*nn)]]
  /\ NP' = NP1(e) /\ P' = <<>>
\* positions of the refined mesh
At(p, v, x) == p[3*v + x]
Mean(p, S, x) == SumOf(LAMBDA v : At(p, v, x), S)
TPts(e) ==
  LET p == O.p  q == e.q  n0 == Len(O.els)  ne == Len(O.a)
      EV == TLCEval([v \in 0..(O.np-1) |-> {n \in 1..n0 : v \in VtxOf(O.els[n])}])
      Lo == TLCEval([i \in 1..ne |-> (CHOOSE v \in 0..(O.np-1) : O.ind[v+1] < i /\ i <= O.ind[v+2])])
      ES == TLCEval([i \in 1..ne |-> {Lo[i], O.a[i]}])
      CellP(n, x) == At(q, O.c0 + n - 1, x)
      EdgeP(i, x) == At(q, O.np + i - 1, x)
  IN
  /\ Chk("positions", Len(q) = 3 * O.np1)
  /\ Chk("cell points", \A n \in 1..n0 : \A x \in 1..3 : O.els[n].k \in {QUAD, HEX} => NNode(O.els[n].k) * CellP(n, x) = Mean(p, VtxOf(O.els[n]), x))
  /\ Chk("face points", \A i \in 1..Len(O.fr) : \A x \in 1..3 : 4 * At(q, O.np + ne + i - 1, x) = Mean(p, O.fr[i], x))
  /\ IF e.cc = 0
     THEN /\ Chk("edge points", \A i \in 1..ne : \A x \in 1..3 : 2 * EdgeP(i, x) = Mean(p, ES[i], x))
          /\ Chk("kept points", \A v \in 0..(O.np-1) : \A x \in 1..3 : At(q, v, x) = At(p, v, x))
     ELSE LET T == TLCEval([i \in 1..ne |-> {n \in EV[Lo[i]] : ES[i] \in O.eo[n]}])
              BV == TLCEval(UNION {IF Cardinality(T[i]) = 1 THEN ES[i] ELSE {} : i \in 1..ne})
          IN
          /\ Chk("edge points", \A i \in 1..ne : \A x \in 1..3 :
                IF Cardinality(T[i]) = 1 THEN 2 * EdgeP(i, x) = Mean(p, ES[i], x)
                ELSE 4 * EdgeP(i, x) = Mean(p, ES[i], x) + SumOf(LAMBDA n : CellP(n, x), T[i]))
          /\ Chk("vertex points", \A v \in 0..(O.np-1) :
                IF EV[v] = {} THEN TRUE
                ELSE IF v \in BV THEN \A x \in 1..3 : At(q, v, x) = At(p, v, x)
                ELSE LET F == EV[v]  nf == Cardinality(F)
                         NB == {u \in UNION {VtxOf(O.els[n]) : n \in F} : \E n \in F : {u, v} \in O.eo[n]}
                     IN \A x \in 1..3 : nf * nf * At(q, v, x) = SumOf(LAMBDA n : CellP(n, x), F) + SumOf(LAMBDA u : At(p, u, x) + At(p, v, x), NB) + nf * (nf - 3) * At(p, v, x))
TFind(e) ==
  LET ED == TLCEval(UNION {O.eo[n] : n \in 1..Len(O.els)}) IN
  Chk("edge lookup", \A i \in 1..Len(e.qe) : LET s == {e.qe[i][1], e.qe[i][2]} IN e.qe[i][3] = IF s \in ED THEN EIdx(O.ind, O.a, s) - 1 ELSE -1)
TraceInit == l = 1 /\ CInit /\ P = <<>> /\ O = <<>>
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     IF e.ev = "Mesh" THEN TMesh(e) ELSE IF e.ev = "Pos" THEN TPos(e) ELSE IF e.ev = "Sub" THEN TSub(e)
     ELSE IF e.ev = "Pts" THEN (TPts(e) = TRUE) /\ UNCHANGED <<cvars, P, O>>
     ELSE IF e.ev = "Find" THEN (TFind(e) = TRUE) /\ UNCHANGED <<cvars, P, O>> ELSE FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
