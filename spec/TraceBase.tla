----------------------------- MODULE TraceBase -----------------------------
(* Shared frame of every trace specification: the recorded executions are   *)
(* an ndjson file named by the environment variable TRACE; l is the line    *)
(* to be explained next.  A line is consumed only by an action of the       *)
(* specification that allows it; acceptance is that every line is consumed. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
NLines == TLCEval(Len(Log))

\* a named conjunct: prints its name when it is what rejects a line
Chk(name, P) == IF P THEN TRUE ELSE PrintT(<<"FAIL", name>>) /\ FALSE

ToSet(s) == {s[i] : i \in 1..Len(s)}
SeqToBag(s) == [x \in ToSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
SameBag(s, t) == Len(s) = Len(t) /\ SeqToBag(s) = SeqToBag(t)
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
Has(r, f) == f \in DOMAIN r

Accepted == PrintT(<<"TRACE_MATCHED", TLCGet("stats").diameter - 1, NLines>>)
=============================================================================
