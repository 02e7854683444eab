------------------------------- MODULE Rigid -------------------------------
(* Matrices are row-major sequences, quaternions <<x, y, z, w>> of integers *)
(* (of any length: the rotation of q is that of q / |q|, and Sq(q) times    *)
(* its matrix is an integer matrix).  An affine map is a 4 x 4 integer      *)
(* matrix over a common denominator.                                        *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumI(_, _, _)
SumI(f(_), i, n) == IF i > n THEN 0 ELSE f(i) + SumI(f, i + 1, n)
Add(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Mul(k, a) == [i \in 1..Len(a) |-> k * a[i]]
Dot(a, b) == SumI(LAMBDA i : a[i] * b[i], 1, Len(a))
Sq(a) == Dot(a, a)
Crs(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
\* entry (i, j) of a d x d matrix
En(d, A, i, j) == A[(i - 1) * d + j]
Mat(d, f(_, _)) == [k \in 1..(d * d) |-> f(((k - 1) \div d) + 1, ((k - 1) % d) + 1)]
Id(d) == Mat(d, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
MM(d, A, B) == Mat(d, LAMBDA i, j : SumI(LAMBDA k : En(d, A, i, k) * En(d, B, k, j), 1, d))
Tr(d, A) == Mat(d, LAMBDA i, j : En(d, A, j, i))
MV(d, A, x) == [i \in 1..d |-> SumI(LAMBDA k : En(d, A, i, k) * x[k], 1, d)]
Outer(a, b) == Mat(Len(a), LAMBDA i, j : a[i] * b[j])
Spin(v) == <<0, -v[3], v[2], v[3], 0, -v[1], -v[2], v[1], 0>>
Col(d, A, j) == [i \in 1..d |-> En(d, A, i, j)]
Row(d, A, i) == [j \in 1..d |-> En(d, A, i, j)]
Det3(A) == Dot(Row(3, A, 1), Crs(Row(3, A, 2), Row(3, A, 3)))
Det2(A) == A[1] * A[4] - A[2] * A[3]
Trace(d, A) == SumI(LAMBDA i : En(d, A, i, i), 1, d)
\* upper left corner of a 4 x 4 matrix and back
M3(A) == Mat(3, LAMBDA i, j : En(4, A, i, j))
M4(A) == Mat(4, LAMBDA i, j : IF i < 4 /\ j < 4 THEN En(3, A, i, j) ELSE IF i = j THEN 1 ELSE 0)
\* ---- quaternions
QQ(p, q) == << p[4]*q[1] + p[1]*q[4] + p[2]*q[3] - p[3]*q[2],
               p[4]*q[2] - p[1]*q[3] + p[2]*q[4] + p[3]*q[1],
               p[4]*q[3] + p[1]*q[2] - p[2]*q[1] + p[3]*q[4],
               p[4]*q[4] - p[1]*q[1] - p[2]*q[2] - p[3]*q[3] >>
Con(q) == <<-q[1], -q[2], -q[3], q[4]>>
Im(q) == <<q[1], q[2], q[3]>>
\* Sq(q) times the rotation matrix: the columns are q e q*
R(q) == LET c(j) == Im(QQ(QQ(q, [i \in 1..4 |-> IF i = j THEN 1 ELSE 0]), Con(q))) IN Mat(3, LAMBDA i, j : c(j)[i])
\* ---- an affine map: D its denominator, A its matrix times D
AffRot(q) == [D |-> Sq(q), A |-> Mat(4, LAMBDA i, j : IF i < 4 /\ j < 4 THEN En(3, R(q), i, j) ELSE IF i = j THEN Sq(q) ELSE 0)]
AffMove(v) == [D |-> 1, A |-> Mat(4, LAMBDA i, j : IF i = j THEN 1 ELSE IF j = 4 THEN v[i] ELSE 0)]
AffScale(s) == [D |-> 1, A |-> Mat(4, LAMBDA i, j : IF i # j THEN 0 ELSE IF i < 4 THEN s ELSE 1)]
After(X, Y) == [D |-> X.D * Y.D, A |-> MM(4, X.A, Y.A)]
Still == [D |-> 1, A |-> Id(4)]
\* the image of a point, times D
Img(X, p) == LET y == MV(4, X.A, <<p[1], p[2], p[3], 1>>) IN <<y[1], y[2], y[3]>>
\* what an operation <<code, ...>> does
OpMap(o) == IF o[1] = 1 THEN AffRot(Tail(o)) ELSE IF o[1] = 2 THEN AffMove(Tail(o)) ELSE AffScale(o[2])
=============================================================================
