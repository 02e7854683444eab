------------------------------ MODULE SubdivMC ------------------------------
(* Small meshes grown from a menu and subdivided: the refined mesh conforms *)
(* when the old one does, its boundary is the subdivided boundary.          *)
EXTENDS Subdiv, Json, IOUtils
VARIABLES lev, Old, diag
mvars == <<cvars, lev, Old, diag>>
Kind == IOEnv.MESH_KIND
Depth == atoi(IOEnv.MESH_DEPTH)
MaxLev == atoi(IOEnv.MESH_LEVEL)
Mode == IOEnv.MESH_MODE
L3(i,j,k) == i + 3*j + 9*k
Box(i,j,k) == <<L3(i,j,k), L3(i+1,j,k), L3(i+1,j+1,k), L3(i,j+1,k), L3(i,j,k+1), L3(i+1,j,k+1), L3(i+1,j+1,k+1), L3(i,j+1,k+1)>>
Rot(h) == <<h[2], h[3], h[4], h[1], h[6], h[7], h[8], h[5]>>
Tip(h) == <<h[1], h[5], h[6], h[2], h[4], h[8], h[7], h[3]>>
Menu ==
  CASE Kind = "quad" -> {[k |-> QUAD, v |-> q] : q \in {<<0,3,2,1>>, <<4,5,6,7>>, <<0,1,5,4>>, <<1,2,6,5>>, <<2,3,7,6>>, <<3,0,4,7>>, <<5,4,0,1>>, <<4,0,2,6>>, <<1,0,8,9>>, <<3,10,0,1>>, <<2,1,9,11>>}}
    [] Kind = "hex" -> UNION {{[k |-> HEX, v |-> h] : h \in {Box(i,j,k), Rot(Tip(Box(i,j,k))), Tip(Rot(Rot(Box(i,j,k))))}} : i \in 0..1, j \in 0..1, k \in 0..1}
    [] OTHER -> {[k |-> TET, v |-> t] : t \in {<<0,1,2,3>>, <<1,3,2,4>>, <<0,2,1,4>>, <<0,1,3,4>>, <<0,3,2,4>>, <<3,2,1,5>>, <<1,0,3,6>>, <<2,0,5,3>>, <<5,3,2,4>>, <<1,2,4,7>>}}
NPts == CASE Kind = "quad" -> 12 [] Kind = "hex" -> 27 [] OTHER -> 8
Flip(s) == [i \in 1..Len(s) |-> s[Len(s)+1-i]]
\* every side belongs to one element, or to two that see it from opposite directions
ConfIn(Ms) == LET OS == {<<n, i>> : n \in 1..Len(Ms), i \in 1..NSide(Ms[1].k)}
                  C == TLCEval([x \in OS |-> CanonS(SideV(Ms[x[1]], x[2]))])
                  R == TLCEval([x \in OS |-> CanonS(Flip(SideV(Ms[x[1]], x[2])))])
                  All == {C[x] : x \in OS}
              IN /\ Cardinality(All) = Cardinality(OS)
                 /\ IF Ms[1].k = QUAD THEN TRUE ELSE \A x \in OS : \A y \in OS : x # y /\ Range(C[x]) = Range(C[y]) => C[x] = R[y]
BndIn(Ms) == LET OS == {<<n, i>> : n \in 1..Len(Ms), i \in 1..NSide(Ms[1].k)}
                 C == TLCEval([x \in OS |-> CanonS(SideV(Ms[x[1]], x[2]))])
                 All == TLCEval({C[x] : x \in OS})
             IN {c \in All : CanonS(Flip(c)) \notin All}
MCInit == CInit /\ lev = 0 /\ Old = <<>> /\ diag = 1
Grow == /\ lev = 0 /\ Len(M) < Depth
        /\ \E e \in Menu : /\ \A i \in 1..NE : VtxOf(M[i]) # VtxOf(e)
                           /\ ConfIn(Append(M, e))
                           /\ (Mode = "mc" /\ NE > 0 /\ Kind # "hex") => VtxOf(e) \cap VtxOf(M[NE]) # {}
                           /\ M' = Append(M, e)
        /\ NP' = NPts /\ UNCHANGED <<lev, Old, diag>>
Num(SS, base) == LET RECURSIVE G(_, _, _) G(T, i, f) == IF T = {} THEN f ELSE LET x == CHOOSE x \in T : TRUE IN G(T \ {x}, i+1, f @@ (x :> i)) IN G(SS, base, <<>>)
Refine ==
  /\ Mode = "mc" /\ lev < MaxLev /\ NE > 0
  /\ LET ED == TLCEval(AllEdges)  ne == Cardinality(ED)
         FS == IF Kind = "hex" THEN TLCEval(FaceSets) ELSE {}
         en == TLCEval(Num(ED, NP))  fn == TLCEval(Num(FS, NP + ne))  c0 == NP + ne + Cardinality(FS)
         Ch(d) == [n \in 1..NE |-> ChildrenOf(n, LAMBDA x : en[x], LAMBDA x : fn[x], c0 + n - 1, d)]
         nc == IF Kind = "quad" THEN 4 ELSE 8
     IN \E d \in (IF Kind = "tet" THEN 1..3 ELSE {1}) :
          LET CC == TLCEval(Ch(d)) IN
          /\ M' = [i \in 1..(nc * NE) |-> CC[((i-1) \div nc) + 1][((i-1) % nc) + 1]]
          /\ NP' = NewVerts(IF Kind = "quad" THEN QUAD ELSE IF Kind = "hex" THEN HEX ELSE TET)
          /\ Old' = [b |-> BndIn(M), en |-> en, fn |-> fn, c0 |-> c0, els |-> M]
          /\ diag' = d
  /\ lev' = lev + 1
MCNext == Grow \/ Refine
MCSpec == MCInit /\ [][MCNext]_mvars
\* pieces of one old boundary side: the children of a side are the sides with the same pattern
BPieces(s) ==
  IF Len(s) = 2 THEN {<<s[1], Old.en[Range(s)]>>, <<Old.en[Range(s)], s[2]>>}
  ELSE IF Len(s) = 3 THEN LET E(a, b) == Old.en[{s[a], s[b]}] IN
       {CanonS(<<s[1], E(1,2), E(1,3)>>), CanonS(<<s[2], E(2,3), E(1,2)>>), CanonS(<<s[3], E(1,3), E(2,3)>>), CanonS(<<E(1,2), E(2,3), E(1,3)>>)}
  ELSE {CanonS(<<s[i], Old.en[{s[i], s[(i%4)+1]}], Old.fn[Range(s)], Old.en[{s[i], s[((i+2)%4)+1]}]>>) : i \in 1..4}
Conforming == lev > 0 => ConfIn(M)
BoundaryKept == lev > 0 => BndIn(M) = UNION {BPieces(s) : s \in Old.b}
InRange == lev > 0 => \A n \in 1..NE : Cardinality(VtxOf(M[n])) = NNode(M[n].k) /\ \A p \in VtxOf(M[n]) : p \in 0..(NP-1)
AllUsed == lev > 0 => \A p \in Old.c0..(NP-1) : \E n \in 1..NE : p \in VtxOf(M[n])
\* volumes: eight children of equal volume for the unit tetrahedron, whichever diagonal is taken
UnitP(i, x) == IF i = x THEN 2 ELSE 0
MidP(S, x) == SumOf(LAMBDA i : UnitP(i, x), S) \div Cardinality(S)
Det(t) == LET D(j, x) == MidP(t[j], x) - MidP(t[1], x) IN
    D(2,1) * (D(3,2)*D(4,3) - D(3,3)*D(4,2)) - D(2,2) * (D(3,1)*D(4,3) - D(3,3)*D(4,1)) + D(2,3) * (D(3,1)*D(4,2) - D(3,2)*D(4,1))
ASSUME \A d \in 1..3 : \A i \in 1..8 : Det(ChildTab(TET, d)[i]) = 1
Emit == (Mode = "gen" /\ lev = 0 /\ NE > 0) => PrintT("@@" \o ToJson([i \in 1..NE |-> <<M[i].k>> \o M[i].v]))
=============================================================================
