----------------------------- MODULE DTetTrace -----------------------------
(* Recorded insertions into the real table of tetrahedra.  T is the table   *)
(* as last seen (vertices per row, all -1: a retired row).                  *)
EXTENDS DTet, TraceBase
VARIABLES l, P, T, S
tvars == <<l, P, T, S>>
Alive(t) == t[1] # -1
Rows(v) == {i \in 1..Len(v) : Alive(v[i])}
Abs(v) == {ToSet(v[i]) : i \in Rows(v)}
NoelFace == << <<1, 2, 3>>, <<0, 3, 2>>, <<0, 1, 3>>, <<0, 2, 1>> >>
Face(t, k) == {t[j] : j \in 1..4} \ {t[k]}
Pos(Q, t) == <<At(Q, t[1]), At(Q, t[2]), At(Q, t[3]), At(Q, t[4])>>
V6(Q, t) == LET q == Pos(Q, t) IN Vol6(q[1], q[2], q[3], q[4])
Centre(Q, t, c) == LET q == Pos(Q, t)  Dn == 2 * V6(Q, t)
                   IN Len(c) = 3 /\ \A k \in 2..4 : 2 * Dot3(D(q[k], q[1]), c) = Dn * (Dot3(q[k], q[k]) - Dot3(q[1], q[1]))
Init0(e) == /\ Chk("start", Len(e.pts) = 4) /\ P' = e.pts /\ T' = << <<0, 1, 2, 3>> >> /\ S' = << <<-1, -1, -1, -1>> >>
Table(e, Q) ==
  /\ Chk("table size", Len(e.v) = Len(e.s) /\ Len(e.e) = Len(Q) /\ Len(e.d) = Len(Q) /\ e.nce = Len(e.v))
  /\ Chk("corner range", \A i \in Rows(e.v) : \A k \in 1..4 : e.v[i][k] \in 0..(Len(Q)-1))
  /\ Chk("corner distinct", \A i \in Rows(e.v) : NoDup(e.v[i]))
  /\ Chk("retired rows", \A i \in (1..Len(e.v)) \ Rows(e.v) : e.v[i] = <<-1, -1, -1, -1>> /\ e.s[i] = e.v[i])
  /\ Chk("turned inside out", \A i \in Rows(e.v) : V6(Q, e.v[i]) > 0)
  /\ Chk("tetrahedron twice", Cardinality(Abs(e.v)) = Cardinality(Rows(e.v)))
  /\ Chk("neighbours", \A i \in Rows(e.v) : \A k \in 1..4 :
        LET f == Face(e.v[i], k)  n == {j \in Rows(e.v) : j # i /\ f \subseteq ToSet(e.v[j])}
        IN IF n = {} THEN e.s[i][k] = -1 ELSE n = {e.s[i][k] + 1})
  /\ Chk("vertex reference", \A i \in 1..Len(Q) : e.e[i] + 1 \in Rows(e.v) /\ e.d[i] \in 0..3 /\ e.v[e.e[i]+1][e.d[i]+1] = i - 1)
  /\ Chk("work array restored", e.clean = 1)
  /\ Chk("centres", \A i \in Rows(e.v) : Centre(Q, e.v[i], e.ce[i]))
Ins(e) ==
  LET M == Abs(T)  Q == Append(P, e.p)  C == Cavity(M, P, e.p)
  IN /\ Chk("may be added", Inside(P, e.p) /\ Generic(M, P, e.p) /\ e.it + 1 \in Rows(T) /\ ToSet(T[e.it+1]) \in C)
     /\ Table(e, Q)
     /\ Chk("delaunay", Abs(e.v) = Insert(M, P, e.p, Len(P)))
     /\ Chk("elsewhere untouched", Len(e.v) >= Len(T) /\ \A i \in Rows(T) : ToSet(T[i]) \in C \/ e.v[i] = T[i])
     /\ P' = Q /\ T' = e.v /\ S' = e.s
Has2(t, a, b) == Alive(t) /\ a \in ToSet(t) /\ b \in ToSet(t)
Rim(f) == f \subseteq 0..3
Star0(e) ==
  LET v == T[e.it+1][e.k+1]  R == {i \in Rows(T) : v \in ToSet(T[i])}
  IN /\ Chk("star", e.r = 1 /\ e.n = Cardinality(R) /\ {x[1] + 1 : x \in ToSet(e.l)} = R /\ \A x \in ToSet(e.l) : T[x[1]+1][x[2]+1] = v)
     /\ Chk("inner point", (e.inner = 1) = (v \notin 0..3))
     /\ UNCHANGED <<P, T, S>>
Edge0(e) ==
  LET a == T[e.it+1][e.a+1]  b == T[e.it+1][e.b+1]  n == Len(e.l)
      R == {i \in 1..Len(T) : Has2(T[i], a, b)}  rim == {a, b} \subseteq 0..3
  IN /\ Chk("edge ends", e.r = 1 /\ e.nod = a /\ e.nou = b /\ e.n = n)
     /\ Chk("inner edge", (e.inner = 1) = ~rim)
     /\ (IF rim THEN Chk("rim edge", n = 0 /\ Len(e.ring) = 0)
         ELSE /\ Chk("around edge", NoDup(e.l) /\ {i + 1 : i \in ToSet(e.l)} = R /\ e.l[1] = e.it)
              /\ Chk("ring", Len(e.ring) = n + 1 /\ e.ring[1] = e.ring[n+1])
              /\ Chk("turn", \A k \in 1..n : {a, b, e.ring[k], e.ring[k+1]} = ToSet(T[e.l[k]+1]) /\ Vol6(At(P, a), At(P, b), At(P, e.ring[k]), At(P, e.ring[k+1])) > 0))
     /\ UNCHANGED <<P, T, S>>
Sq(p, q) == Dot3(D(p, q), D(p, q))
Size0(e) ==
  LET q == Pos(P, T[e.it+1])
      N(k) == LET f == NoelFace[k] IN Cross3(D(q[f[2]+1], q[f[1]+1]), D(q[f[3]+1], q[f[1]+1]))
      E == {Sq(q[i], q[j]) : <<i, j>> \in {x \in (1..4) \X (1..4) : x[1] < x[2]}}
  IN /\ Chk("volume", e.vol = Vol6(q[1], q[2], q[3], q[4]))
     /\ Chk("face areas", e.ar = [k \in 1..4 |-> Dot3(N(k), N(k))])
     /\ Chk("face normals", e.no = N(1) \o N(2) \o N(3) \o N(4))
     /\ Chk("edge lengths", /\ \A x \in E : e.l2 >= x /\ e.m2 <= x
                            /\ {e.l2, e.m2} \subseteq E /\ e.l1 = e.l2 /\ e.m1 = e.m2)
     /\ Chk("radius", e.rad = 1)
     /\ UNCHANGED <<P, T, S>>
One0(e) == /\ Chk("fresh references", e.r = 1 /\ Len(e.e) = Len(P) /\ \A i \in 1..Len(P) : e.e[i] + 1 \in Rows(T) /\ e.d[i] \in 0..3 /\ T[e.e[i]+1][e.d[i]+1] = i - 1)
           /\ UNCHANGED <<P, T, S>>
Check0(e) == Chk("checker", e.a = 1 /\ e.b = 1) /\ UNCHANGED <<P, T, S>>
\* the sphere about a triangle that has its circle as a great circle, against a point; > 0: inside.
\* With g twice the squared area factor, the centre is (wa a + wb b + wc c) / (wa + wb + wc)
Great(a, b, c, p) ==
  LET A == Sq(b, c)  B == Sq(c, a)  C == Sq(a, b)
      x == A * (B + C - A)  y == B * (C + A - B)  z == C * (A + B - C)  w == x + y + z
      o == <<x * a[1] + y * b[1] + z * c[1], x * a[2] + y * b[2] + z * c[2], x * a[3] + y * b[3] + z * c[3]>>
  IN \* |o/w - a|^2 - |o/w - p|^2  =  |a|^2 - |p|^2 - 2 o.(a - p)/w
     (w * (Dot3(a, a) - Dot3(p, p))) - 2 * Dot3(o, D(a, p))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Sphere0(e) ==
  LET p == [i \in 1..5 |-> <<e.q[3*i-2], e.q[3*i-1], e.q[3*i]>>]
      s == Sgn(InSphere(p[1], p[2], p[3], p[4], p[5]))  t == Sgn(Great(p[1], p[2], p[3], p[5]))
  IN /\ Chk("sphere of four", e.d = (IF Vol6(p[1], p[2], p[3], p[4]) > 0 THEN -s ELSE s) /\ e.d4 = e.d)
     /\ Chk("sphere of three", e.t = -t)
     /\ Chk("circle in space", t = 0 \/ e.u = 1 - t)
     /\ UNCHANGED <<P, T, S>>
TraceInit == l = 1 /\ P = <<>> /\ T = <<>> /\ S = <<>>
Step(e) == CASE e.ev = "Init" -> Init0(e) [] e.ev = "Ins" -> Ins(e) [] e.ev = "Star" -> Star0(e) [] e.ev = "Edge" -> Edge0(e)
             [] e.ev = "Size" -> Size0(e) [] e.ev = "One" -> One0(e) [] e.ev = "Check" -> Check0(e) [] e.ev = "Sphere" -> Sphere0(e)
             [] OTHER -> Chk("crash", FALSE)
TraceNext == l <= NLines /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
