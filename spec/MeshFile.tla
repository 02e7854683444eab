------------------------------ MODULE MeshFile ------------------------------
(* What files of meshes and arrays mean.                                      *)
(* A Wavefront file is a sequence of lines: <<1,x,y,z>> vertex, <<2,u,v>>      *)
(* texture point, <<3,a,b,c>> normal, <<4,p,t,n,p,t,n,...>> face (0: absent,   *)
(* negative: counted back from the entries read so far), <<5,name>> group,    *)
(* <<6,name>> material file, <<0>> anything else.                             *)
EXTENDS Integers, Sequences, FiniteSets
Resolve(i, n) == IF i = 0 THEN -1 ELSE IF i < 0 THEN n + i ELSE i - 1
Empty == [xyz |-> <<>>, tex |-> <<>>, nrm |-> <<>>, faces |-> <<>>, groups |-> <<>>, mtl |-> 0]
Refs(st, ln) == [k \in 1..((Len(ln) - 1) \div 3) |->
   <<Resolve(ln[3*k-1], Len(st.xyz)), Resolve(ln[3*k], Len(st.tex)), Resolve(ln[3*k+1], Len(st.nrm))>>]
Step(st, ln) ==
  CASE ln[1] = 1 -> [st EXCEPT !.xyz = Append(@, <<ln[2], ln[3], ln[4]>>)]
    [] ln[1] = 2 -> [st EXCEPT !.tex = Append(@, <<ln[2], ln[3]>>)]
    [] ln[1] = 3 -> [st EXCEPT !.nrm = Append(@, <<ln[2], ln[3], ln[4]>>)]
    [] ln[1] = 4 -> [st EXCEPT !.faces = Append(@, Refs(st, ln))]
    [] ln[1] = 5 -> [st EXCEPT !.groups = Append(@, <<ln[2], Len(st.faces)>>)]
    [] ln[1] = 6 -> [st EXCEPT !.mtl = ln[2]]
    [] OTHER -> st
RECURSIVE ReadFrom(_, _, _)
ReadFrom(st, lines, k) == IF k > Len(lines) THEN st ELSE ReadFrom(Step(st, lines[k]), lines, k + 1)
ReadObj(lines) == ReadFrom(Empty, lines, 1)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE LET h == Len(s) \div 2 IN Flat(SubSeq(s, 1, h)) \o Flat(SubSeq(s, h + 1, Len(s)))
Corners(f, k) == [i \in 1..Len(f) |-> f[i][k]]
\* a polygon as a fan of triangles
Fan(f) == Flat([i \in 1..(Len(f) - 2) |-> <<f[1][1], f[i+1][1], f[i+2][1]>>])
FanAll(fs) == Flat([i \in 1..Len(fs) |-> Fan(fs[i])])
CornersAll(fs, k) == Flat([i \in 1..Len(fs) |-> Corners(fs[i], k)])
RECURSIVE Starts(_, _, _)
Starts(fs, i, a) == IF i > Len(fs) THEN <<a>> ELSE <<a>> \o Starts(fs, i + 1, a + Len(fs[i]))
\* images are stored with the last row first
Flipped(px, w, h) == [i \in 1..(3*w*h) |-> LET r == (i-1) \div (3*w) IN px[(h-1-r)*3*w + ((i-1) % (3*w)) + 1]]
Arranged(d, n0, n1, fortran) == [i \in 1..(n0*n1) |-> d[1 + (IF fortran THEN ((i-1) % n1)*n0 + ((i-1) \div n1) ELSE i-1)]]
\* file names: codes of characters; 46 is the dot, 47 the slash
LastOf(s, c) == LET S == {i \in 1..Len(s) : s[i] = c} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
DotAt(s) == LET d == LastOf(s, 46) IN IF d > LastOf(s, 47) THEN d ELSE 0
PathDecided(s) == DotAt(s) = 0 \/ DotAt(s) > LastOf(s, 47) + 1
Stem(s) == IF DotAt(s) = 0 THEN s ELSE SubSeq(s, 1, DotAt(s) - 1)
Extension(s) == IF DotAt(s) = 0 THEN <<>> ELSE SubSeq(s, DotAt(s) + 1, Len(s))
Directory(s) == IF LastOf(s, 47) = 0 THEN <<>> ELSE SubSeq(s, 1, LastOf(s, 47) - 1)
=============================================================================
