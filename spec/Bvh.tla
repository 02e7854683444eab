-------------------------------- MODULE Bvh --------------------------------
(* C11: bounding-volume hierarchies.  Abstractly a hierarchy over objects    *)
(* 0..n-1 is a family of clusters: the whole set, the single objects, and    *)
(* every cluster with more than one object is the disjoint union of two      *)
(* others.  Every cluster has a volume that contains those of its parts.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt
Objs(n) == 0..(n-1)
Parts(F, C) == {P \in SUBSET F : Cardinality(P) = 2 /\ UNION P = C /\ \A A \in P, B \in P : A # B => A \cap B = {}}
Hierarchy(F, n) == /\ Objs(n) \in F /\ {} \notin F
                   /\ \A C \in F : Cardinality(C) > 1 => Cardinality(Parts(F, C)) = 1
                   /\ Cardinality(F) = 2*n - 1
\* ---------------- a stored tree: nodes [parent, child, child] with -1 for "none"
RECURSIVE Below(_, _, _)
Below(T, i, fuel) == \* nodes at and below node i (1-based sequence, 0-based names)
  IF fuel = 0 THEN {i} ELSE IF T[i+1][3] = -1 THEN {i} ELSE {i} \cup Below(T, T[i+1][2], fuel-1) \cup Below(T, T[i+1][3], fuel-1)
TreeOK(T, n) ==
  LET N == Len(T) IN
  /\ N = 2*n - 1 /\ T[1][1] = -1
  /\ \A i \in 1..N : IF T[i][3] = -1 THEN T[i][2] \in Objs(n)
                     ELSE /\ T[i][2] \in 0..(N-1) /\ T[i][3] \in 0..(N-1) /\ T[i][2] # T[i][3]
                          /\ T[T[i][2]+1][1] = i-1 /\ T[T[i][3]+1][1] = i-1
  /\ \A i \in 2..N : T[i][1] \in 0..(N-1) /\ i-1 \in {T[T[i][1]+1][2], T[T[i][1]+1][3]} /\ T[T[i][1]+1][3] # -1
  /\ {T[i][2] : i \in {j \in 1..N : T[j][3] = -1}} = Objs(n)
  /\ Cardinality({i \in 1..N : T[i][3] = -1}) = n
  /\ Below(T, 0, N) = 0..(N-1)
LeafOf(T, o) == CHOOSE i \in 1..Len(T) : T[i][3] = -1 /\ T[i][2] = o
\* ---------------- integer geometry
Sub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a, b) == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>
D2(a, b) == LET w == Sub(a, b) IN Dot(w, w)
Orient(a, b, c, d) == Dot(Cross(Sub(b, a), Sub(c, a)), Sub(d, a))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* squared distances as fractions <<numerator, denominator>>
LeF(a, b) == a[1]*b[2] <= b[1]*a[2]
MinF(S) == CHOOSE a \in S : \A b \in S : LeF(a, b)
PtSegF(p, a, b) == \* {} when the foot is not inside
  LET d == Sub(b, a)  t == Dot(Sub(p, a), d)  dd == Dot(d, d)  c == Cross(Sub(p, a), d) IN
  IF t > 0 /\ t < dd THEN {<<Dot(c, c), dd>>} ELSE {}
PtFaceF(p, a, b, c) ==
  LET n == Cross(Sub(b, a), Sub(c, a))  nn == Dot(n, n)
      w1 == Dot(Cross(Sub(b, a), Sub(p, a)), n)  w2 == Dot(Cross(Sub(c, b), Sub(p, b)), n)  w3 == Dot(Cross(Sub(a, c), Sub(p, c)), n)
      h == Dot(n, Sub(p, a))
  IN IF nn > 0 /\ w1 >= 0 /\ w2 >= 0 /\ w3 >= 0 THEN {<<h*h, nn>>} ELSE {}
\* a fraction bigger than 60 is kept as 60 when products would get too large: not needed within the bounds used
PtTriF(p, a, b, c) == MinF({<<D2(p, a), 1>>, <<D2(p, b), 1>>, <<D2(p, c), 1>>} \cup PtSegF(p, a, b) \cup PtSegF(p, b, c) \cup PtSegF(p, c, a) \cup PtFaceF(p, a, b, c))
\* a segment and a triangle, two triangles: 1 an edge passes through the inside of a face, 0 apart, -1 touching at most
SegTri(a, b, c, d, e) ==
  LET s == Sgn(Orient(c, d, e, a))  t == Sgn(Orient(c, d, e, b))
      u == Sgn(Orient(a, b, c, d))  v == Sgn(Orient(a, b, d, e))  w == Sgn(Orient(a, b, e, c))
  IN IF s = t THEN (IF s = 0 THEN -1 ELSE 0) ELSE IF {1, -1} \subseteq {u, v, w} THEN 0 ELSE IF s * t * u * v * w # 0 THEN 1 ELSE -1
TriTri(P, Q) ==
  LET R == {SegTri(P[1],P[2],Q[1],Q[2],Q[3]), SegTri(P[2],P[3],Q[1],Q[2],Q[3]), SegTri(P[3],P[1],Q[1],Q[2],Q[3]),
            SegTri(Q[1],Q[2],P[1],P[2],P[3]), SegTri(Q[2],Q[3],P[1],P[2],P[3]), SegTri(Q[3],Q[1],P[1],P[2],P[3])}
  IN IF 1 \in R THEN 1 ELSE IF -1 \in R THEN -1 ELSE 0
\* vertex-face and edge-edge proximity at distance dl/2: 1 yes, 0 no, -1 on the borderline
FVNear(a, b, c, p, dl) ==
  LET n == Cross(Sub(b, a), Sub(c, a))  nn == Dot(n, n)
      w1 == Dot(Cross(Sub(b, a), Sub(p, a)), n)  w2 == Dot(Cross(Sub(c, b), Sub(p, b)), n)  w3 == Dot(Cross(Sub(a, c), Sub(p, c)), n)
      h == Dot(n, Sub(p, a))
  IN IF nn = 0 THEN -1
     ELSE IF w1 < 0 \/ w2 < 0 \/ w3 < 0 \/ 4*h*h > dl*dl*nn THEN 0
     ELSE IF w1 > 0 /\ w2 > 0 /\ w3 > 0 /\ 4*h*h < dl*dl*nn THEN 1 ELSE -1
EENear(a, b, c, d, dl) ==
  LET u == Sub(b, a)  v == Sub(d, c)  w == Sub(c, a)  n == Cross(u, v)  nn == Dot(n, n)
      s == Dot(Cross(w, v), n)  t == Dot(Cross(w, u), n)  h == Dot(w, n)
  IN IF nn = 0 THEN -1
     ELSE IF s < 0 \/ s > nn \/ t < 0 \/ t > nn \/ 4*h*h > dl*dl*nn THEN 0
     ELSE IF s > 0 /\ s < nn /\ t > 0 /\ t < nn /\ 4*h*h < dl*dl*nn THEN 1 ELSE -1
\* ---------------- space-filling code of a point of a 10-bit grid
RECURSIVE Spread(_, _)
Spread(x, k) == IF k = 0 THEN 0 ELSE (x % 2) + 8 * Spread(x \div 2, k-1)
Code(x, y, z) == 4 * Spread(x, 10) + 2 * Spread(y, 10) + Spread(z, 10)
=============================================================================
