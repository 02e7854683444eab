----------------------------- MODULE MeshFileMC -----------------------------
(* A writer that knows which entry it means refers to it from the front or   *)
(* from the back.  Checked: reading the lines gives the faces it meant.      *)
EXTENDS MeshFile, TLC, Json, IOUtils
VARIABLES lines, nv, nt, nn, meant, grp
mvars == <<lines, nv, nt, nn, meant, grp>>
N == IF IOEnv.MF_MAX = "2" THEN 7 ELSE 6
MCInit == /\ lines = <<<<1, 1, 0, 0>>, <<1, 0, 2, 0>>, <<1, 0, 0, 3>>>> /\ nv = 3 /\ nt = 0 /\ nn = 0 /\ meant = <<>> /\ grp = <<>>
Put(x) == lines' = Append(lines, x)
Vertex == Put(<<1, nv, 1 - nv, 2>>) /\ nv' = nv + 1 /\ UNCHANGED <<nt, nn, meant, grp>>
Tex == Put(<<2, nt + 1, 2>>) /\ nt' = nt + 1 /\ UNCHANGED <<nv, nn, meant, grp>>
Nrm == Put(<<3, 0, 0, 1 + nn>>) /\ nn' = nn + 1 /\ UNCHANGED <<nv, nt, meant, grp>>
Polys == {<<1, 2, 3>>, <<nv, nv - 2, nv - 1>>} \cup (IF nv > 3 THEN {<<2, 1, nv - 1, nv>>} ELSE {}) \cup (IF nv > 4 THEN {<<1, 2, 3, 4, 5>>} ELSE {})
Ref(i, n, back) == IF back THEN i - n - 1 ELSE i
Face == \E f \in Polys, how \in 0..2, at \in BOOLEAN, an \in BOOLEAN :
  /\ (at => nt > 0) /\ (an => nn > 0) /\ ((how = 2) => Len(f) > 3)
  /\ LET R(k) == LET back == (how = 1) \/ (how = 2 /\ k % 2 = 0) IN
             <<Ref(f[k], nv, back), IF at THEN Ref(nt, nt, back) ELSE 0, IF an THEN Ref(nn, nn, back) ELSE 0>> IN
     Put(<<4>> \o Flat([k \in 1..Len(f) |-> R(k)]))
  /\ meant' = Append(meant, [k \in 1..Len(f) |-> <<f[k] - 1, IF at THEN nt - 1 ELSE -1, IF an THEN nn - 1 ELSE -1>>])
  /\ UNCHANGED <<nv, nt, nn, grp>>
Group == Put(<<5, Len(grp)>>) /\ grp' = Append(grp, <<Len(grp), Len(meant)>>) /\ UNCHANGED <<nv, nt, nn, meant>>
Other == Put(<<0>>) /\ UNCHANGED <<nv, nt, nn, meant, grp>>
MCSpec == MCInit /\ [][Len(lines) < N /\ (Vertex \/ Tex \/ Nrm \/ Face \/ Group \/ Other)]_mvars
Means == LET r == ReadObj(lines) IN r.faces = meant /\ r.groups = grp /\ Len(r.xyz) = nv /\ Len(r.tex) = nt /\ Len(r.nrm) = nn
InRange == LET r == ReadObj(lines) IN \A i \in 1..Len(r.faces) : \A k \in 1..Len(r.faces[i]) : r.faces[i][k][1] \in 0..(nv-1)
Emit == (Len(lines) = N /\ meant # <<>>) => PrintT("@@" \o ToJson(Flat([i \in 1..N |-> <<Len(lines[i])>> \o lines[i]])))
=============================================================================
