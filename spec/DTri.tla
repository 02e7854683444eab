-------------------------------- MODULE DTri --------------------------------
(* C01: an editable triangle mesh.                                          *)
(* Abstract state: the set F of oriented faces (cyclic triples, smallest    *)
(* vertex first) and the number NV of allocated vertices.  Each public edit *)
(* of the library is one action; a refused edit is a stuttering step.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rot(t) == <<t[2], t[3], t[1]>>
Norm(t) == IF t[1] < t[2] /\ t[1] < t[3] THEN t
           ELSE IF t[2] < t[3] THEN Rot(t) ELSE Rot(Rot(t))
DEdges(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
AllD(F) == UNION {DEdges(t) : t \in F}
VertsOf(F) == UNION {{t[1], t[2], t[3]} : t \in F}
FaceOf(F, a, b) == {t \in F : <<a, b>> \in DEdges(t)}
Apex(t, a, b) == CHOOSE v \in {t[1], t[2], t[3]} : v # a /\ v # b
Adjacent(F, a, b) == <<a, b>> \in AllD(F) \/ <<b, a>> \in AllD(F)
Nbr(F, a) == {b \in VertsOf(F) : Adjacent(F, a, b)}
Link(F, v) == {e \in UNION {DEdges(t) : t \in {u \in F : v \in {u[1], u[2], u[3]}}} : e[1] # v /\ e[2] # v}
BoundaryD(F) == LET D == AllD(F) IN {e \in D : <<e[2], e[1]>> \notin D}
UEdges(F) == {{e[1], e[2]} : e \in AllD(F)}

\* the link of v is one path or one cycle
RECURSIVE Reach(_, _)
Reach(L, S) == LET S2 == S \cup {e[2] : e \in {x \in L : x[1] \in S}} \cup {e[1] : e \in {x \in L : x[2] \in S}}
               IN IF S2 = S THEN S ELSE Reach(L, S2)
LinkOK(F, v) == LET L == Link(F, v)
                    N == {e[1] : e \in L} \cup {e[2] : e \in L}
                IN  /\ Cardinality({e[1] : e \in L}) = Cardinality(L)
                    /\ Cardinality({e[2] : e \in L}) = Cardinality(L)
                    /\ Reach(L, {CHOOSE x \in N : TRUE}) = N

Manifold(F) ==
  /\ \A t \in F : t[1] # t[2] /\ t[2] # t[3] /\ t[3] # t[1]
  /\ Cardinality(AllD(F)) = 3 * Cardinality(F)       \* no directed edge twice
  /\ Cardinality({{t[1], t[2], t[3]} : t \in F}) = Cardinality(F)
  /\ \A v \in VertsOf(F) : LinkOK(F, v)

Euler(F) == Cardinality(VertsOf(F)) - Cardinality(UEdges(F)) + Cardinality(F)

-----------------------------------------------------------------------------
(* results of the edits *)
InsFace(F, t, p) == (F \ {Norm(t)}) \cup {Norm(<<p, t[2], t[3]>>), Norm(<<t[1], p, t[3]>>), Norm(<<t[1], t[2], p>>)}

InsEdge(F, a, b, p) ==
  LET t == CHOOSE x \in FaceOf(F, a, b) : TRUE
      u == CHOOSE x \in FaceOf(F, b, a) : TRUE
      c == Apex(t, a, b)   d == Apex(u, a, b)
  IN (F \ {t, u}) \cup {Norm(<<a, p, c>>), Norm(<<p, b, c>>), Norm(<<b, p, d>>), Norm(<<p, a, d>>)}

FlipLegal(F, a, b) ==
  /\ FaceOf(F, a, b) # {} /\ FaceOf(F, b, a) # {}
  /\ LET c == Apex(CHOOSE x \in FaceOf(F, a, b) : TRUE, a, b)
         d == Apex(CHOOSE x \in FaceOf(F, b, a) : TRUE, a, b)
     IN c # d /\ ~Adjacent(F, c, d)
FlipRes(F, a, b) ==
  LET t == CHOOSE x \in FaceOf(F, a, b) : TRUE
      u == CHOOSE x \in FaceOf(F, b, a) : TRUE
      c == Apex(t, a, b)   d == Apex(u, a, b)
  IN (F \ {t, u}) \cup {Norm(<<a, d, c>>), Norm(<<d, b, c>>)}

\* collapsing directed edge x->z removes z and its two faces, and renames z to x
Subst(t, z, x) == [i \in 1..3 |-> IF t[i] = z THEN x ELSE t[i]]
ColRes(F, x, z) ==
  LET G == {t \in F : ~(x \in {t[1], t[2], t[3]} /\ z \in {t[1], t[2], t[3]})}
  IN {Norm(Subst(t, z, x)) : t \in G}
OnBoundary(F, v) == \E e \in BoundaryD(F) : v \in {e[1], e[2]}
ColApexes(F, x, z) == {Apex(t, x, z) : t \in FaceOf(F, x, z) \cup FaceOf(F, z, x)}
Valence(F, v) == Cardinality(Nbr(F, v))
\* the classical link condition, and no wing vertex of valence three
LinkCond(F, x, z) == Nbr(F, x) \cap Nbr(F, z) = ColApexes(F, x, z)
ColMustRefuse(F, x, z) == ~LinkCond(F, x, z) \/ \E w \in ColApexes(F, x, z) : Valence(F, w) = 3 /\ ~OnBoundary(F, w)
ColMustAccept(F, x, z) ==
  /\ ~ColMustRefuse(F, x, z)
  /\ ~OnBoundary(F, x) /\ ~OnBoundary(F, z)
IsolatedFace(F, t) == \A e \in DEdges(t) : <<e[2], e[1]>> \notin AllD(F)

-----------------------------------------------------------------------------
VARIABLES F, NV
vars == <<F, NV>>

InsertFace(t) == t \in F /\ F' = InsFace(F, t, NV) /\ NV' = NV + 1
InsertEdge(a, b) == /\ FaceOf(F, a, b) # {} /\ FaceOf(F, b, a) # {}
                    /\ F' = InsEdge(F, a, b, NV) /\ NV' = NV + 1
Flip(a, b) == FlipLegal(F, a, b) /\ F' = FlipRes(F, a, b) /\ NV' = NV
Collapse(x, z) == /\ FaceOf(F, x, z) # {} /\ FaceOf(F, z, x) # {}
                  /\ ColMustAccept(F, x, z)
                  /\ F' = ColRes(F, x, z) /\ NV' = NV
DeleteFace(t) == t \in F /\ IsolatedFace(F, t) /\ F' = F \ {t} /\ NV' = NV

Next == \/ \E t \in F : InsertFace(t) \/ DeleteFace(t)
        \/ \E e \in AllD(F) : InsertEdge(e[1], e[2]) \/ Flip(e[1], e[2]) \/ Collapse(e[1], e[2])
=============================================================================
