------------------------------ MODULE DTetMC ------------------------------
(* All orders of insertion of the candidate points, to depth N.             *)
EXTENDS DTet, TLC, IOUtils, Json
VARIABLES M, P, hist
vars == <<M, P, hist>>
L == atoi(IOEnv.DT_L)  N == atoi(IOEnv.DT_N)  Mode == IOEnv.DT_MODE
Super == << <<-L, L, -L>>, <<L, -L, -L>>, <<L, L, L>>, <<-L, -L, L>> >>
Cand == { <<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 2>>, <<1, 1, 1>>, <<-1, 2, 0>>, <<0, -2, 1>>, <<2, 1, -1>>, <<-1, -1, 3>>, <<1, 2, 2>>, <<-2, -1, -1>> }
Init == M = {{0, 1, 2, 3}} /\ P = Super /\ hist = <<>>
Add == \E q \in Cand : /\ Len(hist) < N /\ q \notin {P[i] : i \in 1..Len(P)} /\ Generic(M, P, q)
                       /\ M' = Insert(M, P, q, Len(P)) /\ P' = Append(P, q) /\ hist' = Append(hist, q)
Spec == Init /\ [][Add]_vars
SumV == LET RECURSIVE s(_)
            s(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE
                                              q == Four(x)  v == Vol6(At(P, q[1]), At(P, q[2]), At(P, q[3]), At(P, q[4]))
                                          IN (IF v < 0 THEN -v ELSE v) + s(T \ {x})
        IN s(M)
Opp(f, S) == CHOOSE v \in S : v \notin f
Side(f, v) == LET q == CHOOSE q \in f \X f \X f : q[1] < q[2] /\ q[2] < q[3]
              IN Vol6(At(P, q[1]), At(P, q[2]), At(P, q[3]), At(P, v)) > 0
AllSolid == \A S \in M : Solid(P, S)
Covers == SumV = Vol6(Super[1], Super[2], Super[3], Super[4])
TwoSided == \A f \in UNION {Faces(S) : S \in M} :
   LET T == {S \in M : f \subseteq S} IN IF f \subseteq 0..3 THEN Cardinality(T) = 1
      ELSE Cardinality(T) = 2 /\ {Side(f, Opp(f, S)) : S \in T} = BOOLEAN
EmptySpheres == \A S \in M : \A i \in 0..(Len(P)-1) : i \in S \/ Ball(P, S, At(P, i)) < 0
\* the mesh depends on the points alone, not on the order they came in
Determined == Mode = "deep" => M = {S \in SUBSET (0..(Len(P)-1)) : Cardinality(S) = 4 /\ Solid(P, S) /\ \A i \in 0..(Len(P)-1) : i \in S \/ Ball(P, S, At(P, i)) < 0}
AllUsed == UNION M = 0..(Len(P)-1)
Local == [][\A S \in M : S \in M' \/ Ball(P, S, P'[Len(P')]) > 0]_vars
Emit == (Mode = "gen" /\ Len(hist) = N) => PrintT("@@" \o ToJson(hist))
=============================================================================
