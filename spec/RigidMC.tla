------------------------------ MODULE RigidMC ------------------------------
(* A stack of rotations, translations and scalings grows one by one.  At    *)
(* every step the quaternion, the translation and the scale carried along,  *)
(* and the product of the matrices, describe the same map, which takes      *)
(* points where the operations one after another take them.                 *)
EXTENDS Rigid, TLC, IOUtils, Json
VARIABLES h, X, q, t, d, s
vars == <<h, X, q, t, d, s>>
N == IF IOEnv.RG_SIZE = "big" THEN 3 ELSE 2
Gens == { <<1,0,0,1>>, <<0,-1,0,1>>, <<0,0,1,1>>, <<1,1,1,1>>, <<-1,1,1,-1>>, <<0,0,1,0>>, <<1,-1,0,0>>, <<0,2,0,1>>, <<1,0,-2,0>>, <<2,-1,0,1>>, <<1,2,0,-2>>, <<0,1,1,-1>> }
Moves == { <<2, -1, 3>>, <<0, 4, -1>> }
Ops == {<<1>> \o g : g \in Gens} \cup {<<2>> \o v : v \in Moves} \cup {<<3, 2>>, <<3, 3>>}
Init == h = << >> /\ X = Still /\ q = <<0, 0, 0, 1>> /\ t = <<0, 0, 0>> /\ d = 1 /\ s = 1
\* s R(q)/|q|^2 x + t/d
Do(o) == /\ h' = Append(h, o) /\ X' = After(OpMap(o), X)
         /\ CASE o[1] = 1 -> LET g == Tail(o) IN q' = QQ(g, q) /\ t' = MV(3, R(g), t) /\ d' = d * Sq(g) /\ s' = s
              [] o[1] = 2 -> q' = q /\ t' = Add(t, Mul(d, Tail(o))) /\ d' = d /\ s' = s
              [] OTHER -> q' = q /\ t' = Mul(o[2], t) /\ d' = d /\ s' = s * o[2]
Next == Len(h) < N /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
Pts == {<<0, 0, 0>>, <<1, 0, 0>>, <<1, 2, -1>>, <<-3, 1, 2>>}
RECURSIVE Walk(_, _, _)
\* the point p / e moved by the operations: image over the common denominator
Walk(o, p, e) == IF o = << >> THEN [p |-> p, e |-> e] ELSE
  LET c == Head(o) IN
  IF c[1] = 1 THEN Walk(Tail(o), MV(3, R(Tail(c)), p), e * Sq(Tail(c)))
  ELSE IF c[1] = 2 THEN Walk(Tail(o), Add(p, Mul(e, Tail(c))), e)
  ELSE Walk(Tail(o), Mul(c[2], p), e)
Composed == \A p \in Pts : LET w == Walk(h, p, 1) IN w.e = X.D /\ w.p = Img(X, p)
Carried == /\ X.D = Sq(q) /\ d = Sq(q)
           /\ \A i, j \in 1..3 : En(4, X.A, i, j) = s * En(3, R(q), i, j)
           /\ \A i \in 1..3 : En(4, X.A, i, 4) = t[i]
           /\ Row(4, X.A, 4) = <<0, 0, 0, X.D>>
Orthogonal == LET n == Sq(q) IN MM(3, R(q), Tr(3, R(q))) = Mul(n * n, Id(3)) /\ Det3(R(q)) = n * n * n
Conjugate == R(Con(q)) = Tr(3, R(q)) /\ R(Mul(-1, q)) = R(q) /\ MV(3, R(q), Im(q)) = Mul(Sq(q), Im(q))
\* the two closed forms in use: by Rodrigues' vector 2 v / w, and by the entries
Forms == LET n == Sq(q)  v == Im(q)  w == q[4] IN
  /\ R(q) = Add(Add(Mul(n, Id(3)), Mul(2 * w, Spin(v))), Mul(2, MM(3, Spin(v), Spin(v))))
  /\ R(q) = Add(Add(Mul(w * w - Sq(v), Id(3)), Mul(2 * w, Spin(v))), Mul(2, Outer(v, v)))
  /\ Trace(3, R(q)) = 4 * w * w - n
Homomorphism == \A g \in Gens : R(QQ(g, q)) = MM(3, R(g), R(q)) /\ Sq(QQ(g, q)) = Sq(g) * Sq(q)
RECURSIVE Flat(_)
Flat(z) == IF z = << >> THEN << >> ELSE Head(z) \o Flat(Tail(z))
Emit == (IOEnv.RG_GEN = "1" /\ Len(h) = N) => PrintT("@@" \o ToJson(<<Len(h)>> \o Flat([k \in 1..Len(h) |-> <<Len(h[k])>> \o h[k]])))
=============================================================================
