------------------------------- MODULE TextMC -------------------------------
(* One-pass scanners: the text is read a character at a time, keeping only   *)
(* the bracket level, whether it is inside of quotes and the open piece.     *)
(* Checked: after any text the scanner has produced the defined pieces.      *)
EXTENDS Text, TLC, Json, IOUtils
VARIABLES s, lev, quo, pb, pq, pa, ob, oq, oa
mvars == <<s, lev, quo, pb, pq, pa, ob, oq, oa>>
N == IF IOEnv.TX_MAX = "2" THEN 6 ELSE 5
Alphabet == {97, 44, 40, 41, 34, 61, 32}
MCInit == s = <<>> /\ lev = 0 /\ quo = FALSE /\ pb = <<>> /\ pq = <<>> /\ pa = <<>> /\ ob = <<>> /\ oq = <<>> /\ oa = <<>>
Read(c) == /\ s' = Append(s, c) /\ lev' = (lev + (IF c = 40 THEN 1 ELSE IF c = 41 THEN -1 ELSE 0)) /\ quo' = (quo # (c = 34))
           /\ IF c = 44 /\ lev = 0 THEN pb' = Append(pb, ob) /\ ob' = <<>> ELSE pb' = pb /\ ob' = Append(ob, c)
           /\ IF c = 32 /\ ~quo THEN pq' = (IF oq = <<>> THEN pq ELSE Append(pq, oq)) /\ oq' = <<>> ELSE pq' = pq /\ oq' = Append(oq, c)
           /\ IF c \in {32, 61} THEN pa' = (IF oa = <<>> THEN pa ELSE Append(pa, oa)) /\ oa' = <<>> ELSE pa' = pa /\ oa' = Append(oa, c)
MCSpec == MCInit /\ [][Len(s) < N /\ \E c \in Alphabet : Read(c)]_mvars
Brackets == Append(pb, ob) = SplitBrackets(s, 44, 40, 41)
Quotes == (IF oq = <<>> THEN pq ELSE Append(pq, oq)) = SplitQuotes(s, 32, 34)
AnyDelimiter == (IF oa = <<>> THEN pa ELSE Append(pa, oa)) = SplitAny(s, {32, 61})
\* nothing is lost: the pieces joined by the delimiter are the text
RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<44>> \o Join(Tail(p))
Whole == Join(SplitBrackets(s, 44, 40, 41)) = s
Emit == (Len(s) = N - 1) => PrintT("@@" \o ToJson(s))
=============================================================================
