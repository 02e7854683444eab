------------------------------ MODULE TextTrace ------------------------------
EXTENDS Text, TraceBase
VARIABLES l
Pairs(m) == {<<m[i][1], m[i][2]>> : i \in 1..Len(m)}
Alpha(k) == (k \in 65..90) \/ (k \in 97..122)
TraceInit == l = 1
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "New"
     \/ e.ev = "Any" /\ (Chk("split by any delimiter", e.r = SplitAny(e.s, ToSet(e.d))) = TRUE)
     \/ e.ev = "Brk" /\ (Chk("split outside brackets", (Balanced(e.s, e.o, e.k) /\ e.s # <<>>) => SameUpToLast(e.r, SplitBrackets(e.s, e.d, e.o, e.k))) = TRUE)
     \/ e.ev = "Quo" /\ (Chk("split outside quotes", e.r = SplitQuotes(e.s, e.d, e.q)) = TRUE)
     \/ e.ev = "Rep" /\ (Chk("replace", e.r = Replaced(e.s, e.a, e.b)) = TRUE)
     \/ e.ev = "Rem" /\ (Chk("remove", e.r = Removed(e.s, ToSet(e.d))) = TRUE)
     \/ e.ev = "Trim" /\ (Chk("remove from the beginning", e.r = Trimmed(e.s, ToSet(e.d))) = TRUE)
     \/ e.ev = "Enc" /\ (Chk("between parentheses", e.r = Enclosed(e.s, e.o, e.k)) = TRUE)
     \/ e.ev = "Tags" /\ (Chk("tags and contents", e.r = e.before \o Tags(e.s)) = TRUE)
     \/ e.ev = "Attr" /\ (Chk("attributes", AttrDecided(e.s) => (Pairs(e.r) = AttrMap(e.s) /\ Len(e.r) = Cardinality(AttrMap(e.s)))) = TRUE)
     \* what was written is what is read: m are the entries put into the text
     \/ e.ev = "Dict" /\ (Chk("dictionary", Pairs(e.r) = Pairs(e.m) /\ Len(e.r) = Cardinality(Pairs(e.m))) = TRUE)
     \/ e.ev = "Csv" /\ (Chk("numbers", e.r = e.m) = TRUE)
     \* the value after the first occurrence of the option
     \/ e.ev = "Opt" /\ (LET K == {i \in 1..Len(e.args) : e.args[i] = e.o}  v == IF K = {} \/ Min(K) = Len(e.args) THEN <<>> ELSE <<e.args[Min(K) + 1]>> IN
           /\ (Chk("option exists", (e.has = 1) = (K # {})) = TRUE)
           /\ (Chk("option text", e.str = (IF v = <<>> THEN <<>> ELSE v[1])) = TRUE)
           /\ (Chk("option number", (v = <<>> => (e.int = e.di /\ e.dbl = e.dd)) /\ (v # <<>> => \A i \in 1..Len(e.nums) : e.nums[i][1] = v[1] => (e.int = e.nums[i][2] /\ e.dbl = 8 * e.nums[i][2]))) = TRUE))
     \/ e.ev = "Chr" /\ (Chk("alphabet", \A k \in 0..255 : ((e.al[k + 1] = 1) = Alpha(k)) /\ ((e.up[k + 1] = 1) = (k \in 65..90)) /\ ((e.nu[k + 1] = 1) = (k \in 48..57))) = TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
