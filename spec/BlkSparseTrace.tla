--------------------------- MODULE BlkSparseTrace ---------------------------
EXTENDS BlkSparse, TraceBase
VARIABLES l, M, w, pat
tvars == <<l, M, w, pat>>
\* every event that changes the matrix carries the dense matrix afterwards and the pattern
Shown(e, A, P) == Chk("values of the matrix", e.d = A) /\ Chk("pattern of the matrix", e.pat = P)
Lin(e, Ax) == Chk("product", e.y = [i \in 1..Len(e.y0) |-> e.al * Ax[i] + e.be * e.y0[i]])
UpTo(e, A) == M' = A /\ (Shown(e, A, pat) = TRUE) /\ UNCHANGED <<w, pat>>
TraceInit == l = 1 /\ M = <<>> /\ w = 1 /\ pat = <<>>
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "Init" /\ M' = Zeros(e.n * e.w) /\ w' = e.w /\ pat' = e.want /\ (Shown(e, Zeros(e.n*e.w), e.want) = TRUE)
     \/ e.ev = "Zero" /\ UpTo(e, Zeros(Len(M)))
     \/ e.ev = "Merge" /\ UpTo(e, AddElem(M, w, e.rows, e.cols, e.e))
     \/ e.ev = "FixDia" /\ UpTo(e, SetDia(M, w, e.fl, e.v))
     \/ e.ev = "FixRow" /\ UpTo(e, SetRow(M, w, e.fl))
     \/ e.ev = "FixCol" /\ UpTo(e, SetCol(M, w, e.fl))
     \/ e.ev = "Fix" /\ UpTo(e, SetFix(M, e.fl))
     \/ e.ev = "AddDia" /\ UpTo(e, AddEye(M, e.v))
     \/ e.ev = "AddVal" /\ UpTo(e, Map2(M, LAMBDA i, j, v : IF i = e.i+1 /\ j = i THEN v + e.v ELSE v))
     \/ e.ev = "Lump" /\ UpTo(e, AddLump(M, w, e.lm, e.s))
     \/ e.ev = "ScaleB" /\ UpTo(e, ScaleB(M, w, e.s))
     \/ e.ev = "ScaleL" /\ UpTo(e, ScaleL(M, e.s))
     \/ e.ev = "Copy" /\ UpTo(e, M)
     \/ e.ev = "MV" /\ (Lin(e, Mul(M, e.x)) = TRUE) /\ UNCHANGED <<M, w, pat>>
     \/ e.ev = "MTV" /\ (Lin(e, MulT(M, e.x)) = TRUE) /\ UNCHANGED <<M, w, pat>>
     \/ e.ev = "MVK" /\ (Lin(e, MulK(M, e.k, e.x)) = TRUE) /\ UNCHANGED <<M, w, pat>>
     \/ e.ev = "Sym" /\ (Chk("symmetry", (e.zero = 1) = Sym(M)) = TRUE) /\ UNCHANGED <<M, w, pat>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
