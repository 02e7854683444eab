---------------------------- MODULE MeshFileTrace ----------------------------
EXTENDS MeshFile, TraceBase
VARIABLES l
Abs(x) == IF x < 0 THEN -x ELSE x
Sq(v) == v[1]*v[1] + v[2]*v[2] + v[3]*v[3]
Root(q) == IF \E L \in 1..250 : L * L = q THEN CHOOSE L \in 1..250 : L * L = q ELSE 0
Unit5(v) == LET L == Root(Sq(v)) IN [k \in 1..3 |-> (5 * v[k]) \div L]   \* normals are chosen such that this is exact
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Sub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
V(s, i) == <<s[3*i-2], s[3*i-1], s[3*i]>>
TraceInit == l = 1
TraceNext ==
  /\ l <= NLines /\ l' = l + 1
  /\ LET e == Log[l] IN
     \/ e.ev = "New"
     \* a reader for triangles ("tri"), polygons cut into triangles ("fan") or elements with all the corners ("quad")
     \/ e.ev = "Read" /\ (LET r == ReadObj(e.lines) IN
          /\ (Chk("vertices", e.xyz = Flat(r.xyz)) = TRUE)
          /\ (Chk("faces", e.elem = (IF e.how = "fan" THEN FanAll(r.faces) ELSE CornersAll(r.faces, 1))) = TRUE))
     \/ e.ev = "Mixed" /\ (LET r == ReadObj(e.lines)  nf == Len(r.faces) IN
          /\ (Chk("read", e.ret = 1) = TRUE)
          /\ (Chk("vertices", e.xyz = Flat(r.xyz) /\ e.tex = Flat(r.tex) /\ e.nrm = Flat([i \in 1..Len(r.nrm) |-> Unit5(r.nrm[i])])) = TRUE)
          /\ (Chk("elements", e.ind = Starts(r.faces, 1, 0)) = TRUE)
          /\ (Chk("corners", e.fxyz = CornersAll(r.faces, 1) /\ e.ftex = CornersAll(r.faces, 2) /\ e.fnrm = CornersAll(r.faces, 3)) = TRUE)
          /\ (Chk("groups", e.gname = <<-1>> \o [i \in 1..Len(r.groups) |-> r.groups[i][1]]
                            /\ e.gind = <<0>> \o [i \in 1..Len(r.groups) |-> r.groups[i][2]] \o <<nf>>) = TRUE)
          /\ (Chk("material file", e.mtl = r.mtl) = TRUE))
     \* lines found in a file that was written for the given vertices, faces and groups
     \/ e.ev = "Wrote" /\ (LET r == ReadObj(e.lines) IN
          /\ (Chk("written vertices", Flat(r.xyz) = e.xyz /\ Flat(r.tex) = e.tex /\ Flat(r.nrm) = e.nrm) = TRUE)
          /\ (Chk("written faces", [i \in 1..Len(r.faces) |-> Flat(r.faces[i])] = e.faces) = TRUE)
          /\ (Chk("written groups", r.groups = e.groups) = TRUE))
     \* read back what was written
     \/ e.ev = "Same" /\ (Chk(e.what, e.got = e.put) = TRUE)
     \/ e.ev = "Stl" /\ (LET T == [i \in 1..(Len(e.tri) \div 3) |-> [k \in 1..3 |-> V(e.xyz, e.tri[3*(i-1)+k] + 1)]] IN
          /\ (Chk("facets", e.got = Flat([i \in 1..Len(T) |-> T[i][1] \o T[i][2] \o T[i][3]])) = TRUE)
          /\ (Chk("facet normals", Len(e.nrm) = 3 * Len(T) /\ \A i \in 1..Len(T) : LET N == Cross(Sub(T[i][2], T[i][1]), Sub(T[i][3], T[i][1]))  L == Root(Sq(N)) IN
                L # 0 => \A k \in 1..3 : Abs(e.nrm[3*(i-1)+k] * L - 1000 * N[k]) <= L) = TRUE))
     \/ e.ev = "Image" /\ (LET full == e.cut = 0 /\ e.magic = 1 IN
          /\ (Chk("accepted", (e.ret = 1) = full) = TRUE)
          /\ (Chk("image", full => (e.w = e.pw /\ e.h = e.ph /\ e.got = Flipped(e.px, e.w, e.h))) = TRUE))
     \/ e.ev = "Array" /\ (LET ok == e.type = e.want /\ Len(e.shape) = e.dims /\ e.cut = 0 /\ e.magic = 1 IN
          /\ (Chk("accepted", (e.ret = 1) = ok) = TRUE)
          /\ (Chk("array", ok => (e.n = e.shape /\ e.got = (IF e.dims = 2 THEN Arranged(e.d, e.shape[1], e.shape[2], e.fortran = 1) ELSE e.d))) = TRUE))
     \* nodes <<id, x, y, z>> and triangles of node ids
     \/ e.ev = "Nas" /\ (LET Pos(id) == (CHOOSE i \in 1..Len(e.nodes) : e.nodes[i][1] = id) - 1 IN
          /\ (Chk("nodes", e.xyz = Flat([i \in 1..Len(e.nodes) |-> <<e.nodes[i][2], e.nodes[i][3], e.nodes[i][4]>>])) = TRUE)
          /\ (Chk("triangles", e.tri = Flat([i \in 1..Len(e.ids) |-> [k \in 1..3 |-> Pos(e.ids[i][k])]])) = TRUE))
     \/ e.ev = "Path" /\ (Chk("path", (PathDecided(e.s) => (e.stem = Stem(e.s) /\ e.ext = Extension(e.s))) /\ e.dir = Directory(e.s)) = TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
