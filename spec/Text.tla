-------------------------------- MODULE Text --------------------------------
(* Cutting text.  A text is a sequence of character codes.                    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Set(s) == {s[i] : i \in 1..Len(s)}
Count(s, k, c) == Cardinality({i \in 1..k : s[i] = c})   \* occurrences among the first k
Keep(s, P(_)) == SelectSeq(s, P)
\* the pieces between the cut positions (a set of positions that belong to no piece)
RECURSIVE PiecesFrom(_, _, _)
PiecesFrom(s, cuts, a) == LET later == {i \in cuts : i >= a} IN
  IF later = {} THEN <<SubSeq(s, a, Len(s))>>
  ELSE LET b == Min(later) IN <<SubSeq(s, a, b - 1)>> \o PiecesFrom(s, cuts, b + 1)
Pieces(s, cuts) == PiecesFrom(s, cuts, 1)
NonEmpty(ps) == SelectSeq(ps, LAMBDA p : Len(p) > 0)
\* where the text may be cut
AnyOf(s, D) == {i \in 1..Len(s) : s[i] \in D}
Level(s, i, o, c) == Count(s, i, o) - Count(s, i, c)
Balanced(s, o, c) == \A i \in 1..Len(s) : Level(s, i, o, c) >= 0
OutsideBrackets(s, d, o, c) == {i \in 1..Len(s) : s[i] = d /\ Level(s, i, o, c) = 0}
OutsideQuotes(s, d, q) == {i \in 1..Len(s) : s[i] = d /\ Count(s, i, q) % 2 = 0}
SplitAny(s, D) == NonEmpty(Pieces(s, AnyOf(s, D)))
SplitBrackets(s, d, o, c) == Pieces(s, OutsideBrackets(s, d, o, c))
SplitQuotes(s, d, q) == NonEmpty(Pieces(s, OutsideQuotes(s, d, q)))
\* an empty piece at the very end may be reported or not
SameUpToLast(r, p) == r = p \/ (p # <<>> /\ p[Len(p)] = <<>> /\ r = SubSeq(p, 1, Len(p) - 1))
Replaced(s, a, b) == [i \in 1..Len(s) |-> IF s[i] = a THEN b ELSE s[i]]
Removed(s, D) == Keep(s, LAMBDA c : c \notin D)
Trimmed(s, D) == LET k == {i \in 1..Len(s) : s[i] \notin D} IN IF k = {} THEN <<>> ELSE SubSeq(s, Min(k), Len(s))
Enclosed(s, o, c) == LET a == {i \in 1..Len(s) : s[i] = o} IN
  IF a = {} THEN <<>> ELSE LET b == {i \in 1..Len(s) : s[i] = c /\ i > Min(a)} IN IF b = {} THEN <<>> ELSE SubSeq(s, Min(a) + 1, Max(b) - 1)
\* tags: content, tag, content, tag, ... only pieces that have ended; leading blanks dropped
RECURSIVE TagsFrom(_, _, _)
TagsFrom(s, a, inside) == LET e == {i \in a..Len(s) : s[i] = (IF inside THEN 62 ELSE 60)} IN
  IF e = {} THEN <<>> ELSE <<Trimmed(SubSeq(s, a, Min(e) - 1), {32})>> \o TagsFrom(s, Min(e) + 1, ~inside)
Tags(s) == TagsFrom(s, 1, FALSE)
\* attributes: pieces outside quotes of the form  name = value  or  name = "value"
Attr(p) == LET e == OutsideQuotes(p, 61, 34) IN
  IF Cardinality(e) # 1 THEN <<FALSE, <<>>, <<>>>>
  ELSE LET k == SubSeq(p, 1, Min(e) - 1)  v == SubSeq(p, Min(e) + 1, Len(p))  n == Count(v, Len(v), 34) IN
       IF k = <<>> \/ Count(k, Len(k), 34) > 0 \/ v = <<>> THEN <<FALSE, <<>>, <<>>>>
       ELSE IF n = 0 THEN <<TRUE, k, v>>
       ELSE IF n = 2 /\ v[1] = 34 /\ v[Len(v)] = 34 THEN <<TRUE, k, SubSeq(v, 2, Len(v) - 1)>>
       ELSE <<FALSE, <<>>, <<>>>>
AttrPieces(s) == SplitQuotes(s, 32, 34)
AttrDecided(s) == LET A == AttrPieces(s) IN \A i \in 1..Len(A) : Attr(A[i])[1] /\ \A j \in 1..Len(A) : i # j => Attr(A[i])[2] # Attr(A[j])[2]
AttrMap(s) == LET A == AttrPieces(s) IN {<<Attr(A[i])[2], Attr(A[i])[3]>> : i \in 1..Len(A)}
=============================================================================
