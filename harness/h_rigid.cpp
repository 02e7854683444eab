#include "vh.h"
#include "delfem2/mat2.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat4.h"
#include "delfem2/quat.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
using namespace delfem2; using namespace vh;
typedef std::vector<long> IV; typedef std::vector<IV> IM;
static const double F = 8192, G = 1024;
static long fx(double v, double f = F) { const double w = v * f; return std::fabs(w) < 1e9 ? (long) std::rint(w) : BAD; }
template<class V> static IV ex(const V &v, int n, double s = 1) { IV r; for (int i = 0; i < n; ++i) r.push_back(EX(v[i], s)); return r; }
template<class V> static IV fr(const V &v, int n, double f = F) { IV r; for (int i = 0; i < n; ++i) r.push_back(fx(v[i], f)); return r; }
template<class T> static IV e3(const CMat3<T> &m, double s = 1) { return ex(m.p_, 9, s); }
template<class T> static IV e4(const CMat4<T> &m, double s = 1) { return ex(m.mat, 16, s); }
static void E(const char *o, const IM &a, const IV &x) { J("E").ks("o", o).arr2("a", a).arr("x", x).emit(); }
static void Q(const char *o, const IM &a, const IV &x) { J("Q").ks("o", o).arr2("a", a).arr("x", x).emit(); }
static IV ints(Rng &R, int n, int k) { IV v; for (int i = 0; i < n; ++i) v.push_back(R.range(-k, k)); return v; }
static IV nonzero(Rng &R, int n, int k) { IV v; do v = ints(R, n, k); while (v == IV(n, 0)); return v; }
static long sq(const IV &v) { long r = 0; for (long x : v) r += x * x; return r; }
template<class T> static std::vector<T> re(const IV &v, double f = 1) { std::vector<T> r; for (long x : v) r.push_back((T) (x * f)); return r; }
// the rotational part of a 4x4 matrix, spoilt when the rest is not that of a rotation
template<class M> static IV rot4(const M &m) { IV r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.push_back(fx(m[i * 4 + j])); for (int i = 0; i < 4; ++i) if (m[i * 4 + 3] != (i == 3) || m[12 + i] != (i == 3)) r[0] = BAD; return r; }
template<class T> static CVec3<T> cv(const IV &v) { return CVec3<T>((T) v[0], (T) v[1], (T) v[2]); }

template<class T> static void rotations(Rng &R) {
  IV q = nonzero(R, 4, R(3) ? 2 : 4); if (R(6) == 0) q = {R.range(-2, 2), R.range(-2, 2), R.range(-2, 2), R(2) ? 30 : 200}; if (R(5) == 0) q[3] = 0; if (q == IV(4, 0)) q[R(4)] = 1;
  const double len = std::sqrt((double) sq(q)); std::vector<T> u = re<T>(q, 1 / len); const T *p = u.data();
  auto rot = [&](const IV &x) { Q("rot", {q}, x); };
  T m[9], m4[16]; double R0[9]; { std::vector<double> ud = re<double>(q, 1 / len); Mat3_Quat(R0, ud.data()); }
  Mat3_Quat(m, p); rot(fr(m, 9)); rot(fr(CMat3<T>::Quat(p).p_, 9)); { CMat3<T> c(T(9)); c.SetRotMatrix_Quaternion(p); rot(fr(c.p_, 9)); }
  Mat4_AffineQuaternion(m4, p); rot(rot4(m4)); rot(rot4(CMat4<T>::Quat(p).mat));
  Mat4_AffineQuaternionConjugate(m4, p); Q("rotT", {q}, rot4(m4));
  { IV a(9), b(9), c(9), d(9), e(9); CQuat<T> cq(p); for (int j = 0; j < 3; ++j) { T x[3] = {0, 0, 0}; x[j] = 1; T y[3]; QuatVec(y, p, x); const auto y1 = QuatVec3(p, std::array<T, 3>{x[0], x[1], x[2]}); const auto y2 = cq.RotateVector(CVec3<T>(x[0], x[1], x[2])); T z[3]; QuatConjVec(z, p, x); const auto y3 = CMat3<T>(m).MatVec(x); for (int i = 0; i < 3; ++i) { a[i * 3 + j] = fx(y[i]); b[i * 3 + j] = fx(y1[i]); c[i * 3 + j] = fx(y2[i]); d[i * 3 + j] = fx(z[i]); e[i * 3 + j] = fx(y3[i]); } } rot(a); rot(b); rot(c); rot(e); Q("rotT", {q}, d); }
  { CQuat<T> n(re<T>(q).data()); n.normalize(); Mat3_Quat(m, n.p); rot(fr(m, 9)); Mat3_Quat(m, n.conjugate().p); Q("rotT", {q}, fr(m, 9)); std::vector<T> w = re<T>(q, 0.5); Normalize_Quat(w.data()); Mat3_Quat(m, w.data()); rot(fr(m, 9)); T qi[4]; Inverse_Quat(qi, w.data()); Mat3_Quat(m, qi); Q("rotT", {q}, fr(m, 9)); CQuat<T> sm(p); sm.SetSmallerRotation(); Mat3_Quat(m, sm.p); rot(fr(m, 9)); }
  const double im = std::sqrt((double) (q[0] * q[0] + q[1] * q[1] + q[2] * q[2])), th = 2 * std::atan2(im, (double) q[3]);
  { std::array<T, 3> v; for (int i = 0; i < 3; ++i) v[i] = im > 0 ? (T) (q[i] / im * th) : (T) 0;
    Mat3_RotMatFromAxisAngleVec(m, v.data()); rot(fr(m, 9)); rot(fr(Mat3_RotMatFromAxisAngleVec(v), 9)); Mat4_AffineRotationCartesian(m4, v.data()); rot(rot4(m4));
    T w[4]; Quat_CartesianAngle(w, v.data()); Mat3_Quat(m, w); rot(fr(m, 9)); const auto w1 = Quat_CartesianAngle(CVec3<T>(v[0], v[1], v[2])); Mat3_Quat(m, w1.data()); rot(fr(m, 9)); }
  if (q[3]) { std::array<T, 3> v; for (int i = 0; i < 3; ++i) v[i] = (T) (2. * q[i] / q[3]); rot(fr(Mat3_RotMatFromRodriguesVector(v), 9)); rot(rot4(Mat4_AffineRotationRodriguez(v[0], v[1], v[2]))); Mat4_Identity(m4); Rotate_Mat4AffineRodriguez(m4, v.data()); rot(rot4(m4)); }
  if (im > 0 || q[3] > 0) { std::array<T, 3> v; for (int i = 0; i < 3; ++i) v[i] = (T) (4 * q[i] / (len + q[3])); rot(fr(Mat3_RotMatFromConformalRotationVector(v), 9)); }
  T mm[9]; for (int i = 0; i < 9; ++i) mm[i] = (T) R0[i];
  { T w[4]; Quat_Mat3(w, mm); Mat3_Quat(m, w); rot(fr(m, 9)); const auto w1 = CMat3<T>(mm).GetQuaternion(); Mat3_Quat(m, w1.data()); rot(fr(m, 9)); }
  { T v[3]; AxisAngleVectorCRV_Mat3(v, mm); rot(fr(Mat3_RotMatFromConformalRotationVector(std::array<T, 3>{v[0], v[1], v[2]}), 9)); }
  { T v[3]; AxisAngleVectorCartesian_Mat3(v, mm); Mat3_RotMatFromAxisAngleVec(m, v); rot(fr(m, 9)); }
  { const auto v = Vec3_AxisAngleVecFromMat3<CMat3<T>, T>(CMat3<T>(mm)); Mat3_RotMatFromAxisAngleVec(m, v.data()); rot(fr(m, 9)); }
  for (int k = 0; k < 2; ++k) if (std::fabs(R0[6 + k]) < (sizeof(T) == 4 ? 0.9 : 0.999)) { const std::array<int, 3> ax = k ? std::array<int, 3>{2, 0, 1} : std::array<int, 3>{2, 1, 0}; T ea[3]; EulerAngle_Mat3(ea, mm, ax); T w[4]; Quaternion_EulerAngle(w, {ea[0], ea[1], ea[2]}, ax); Mat3_Quat(m, w); rot(fr(m, 9)); }
  // one axis after another
  { IM ab; std::array<T, 3> ang; std::array<int, 3> ax; for (int k = 0; k < 3; ++k) { IV z(4, 0); ax[k] = R(3); do { z[ax[k]] = R.range(-3, 3); z[3] = R.range(-3, 3); } while (sq(z) == 0); ab.push_back(z); ang[k] = (T) (2 * std::atan2((double) z[ax[k]], (double) z[3])); } T w[4]; Quaternion_EulerAngle(w, ang, ax); Mat3_Quat(m, w); Q("euler", ab, fr(m, 9)); }
  { IM ab; T ang[3]; for (int k = 2; k >= 0; --k) { IV z(4, 0); do { z[k] = R.range(-3, 3); z[3] = R.range(-3, 3); } while (sq(z) == 0); ab.push_back(z); ang[k] = (T) (2 * std::atan2((double) z[k], (double) z[3])); } T w[4]; Quat_Bryant(w, ang[0], ang[1], ang[2]); Mat3_Quat(m, w); Q("euler", ab, fr(m, 9)); const auto w1 = Quat_Bryant(ang[0], ang[1], ang[2]); Mat3_Quat(m, w1.data()); Q("euler", ab, fr(m, 9)); CMat3<T> c; c.SetRotMatrix_BryantAngle(ang[0], ang[1], ang[2]); Q("euler", ab, fr(c.p_, 9)); }
  // arithmetic of quaternions
  { const IV a = ints(R, 4, 9), b = ints(R, 4, 9); const auto x = re<T>(a), y = re<T>(b); T r[4]; QuatQuat(r, x.data(), y.data()); E("qq", {a, b}, ex(r, 4)); E("qq", {a, b}, ex(Mult_QuatQuat(x.data(), y.data()), 4)); const CQuat<T> A(x.data()), B(y.data()); E("qq", {a, b}, ex((A * B).p, 4)); E("add", {a, b}, ex((A + B).p, 4)); E("sub", {a, b}, ex((A - B).p, 4)); E("mul", {a, {3}}, ex((A * (T) 3).p, 4)); E("con", {a}, ex(A.conjugate().p, 4)); E("dot", {a, b}, {EX(Dot_Quat(x.data(), y.data()))}); { CQuat<T> s(A); s.SetSmallerRotation(); if (a[3]) E("small", {a}, ex(s.p, 4)); } { double c[4]; Copy_Quat(c, x.data()); E("same", {a}, ex(c, 4)); } { float c[4]; A.CopyTo(c); E("same", {a}, ex(c, 4)); } E("same", {a}, ex(A.template cast<double>().p, 4)); T i[4]; Quat_Identity(i); E("same", {{0, 0, 0, 1}}, ex(i, 4)); E("same", {{0, 0, 0, 1}}, ex(CQuat<T>::Identity().p, 4)); E("same", {a}, ex(CQuat<T>(x[3], x[0], x[1], x[2]).p, 4));
    if (sq(a)) { CQuat<T> n(A); n.normalize(); Q("unit", {a}, fr(n.p, 4)); std::vector<T> w(x); Normalize_Quat(w.data()); Q("unit", {a}, fr(w, 4)); const double l = Length_Quat(x.data()), l1 = A.norm(); E("sq", {a}, {(long) std::rint(l * l * 1.0) + (std::fabs(l * l - sq(a)) > 1e-3 ? BAD : 0)}); E("sq", {a}, {(long) std::rint(l1 * l1) + (std::fabs(l1 * l1 - sq(a)) > 1e-3 ? BAD : 0)}); } }
  // between two rotations
  { const IV a = nonzero(R, 4, 3); IV b = a; const int same = R(3); if (same) { for (int i = 3; i > 0; --i) std::swap(b[i], b[R(i + 1)]); for (auto &x : b) if (R(3) == 0) x = -x; } IV mid(4); for (int i = 0; i < 4; ++i) mid[i] = a[i] + b[i]; if (sq(mid)) { const double l = std::sqrt((double) sq(a)); std::vector<T> ua = re<T>(a), ub = re<T>(b); Normalize_Quat(ua.data()); Normalize_Quat(ub.data()); (void) l; const CQuat<T> A(ua.data()), B(ub.data()); Q("unit", {a}, fr(SphericalLinearInterp(A, B, (T) 0).p, 4)); Q("unit", {b}, fr(SphericalLinearInterp(A, B, (T) 1).p, 4)); Q("unit", {mid}, fr(SphericalLinearInterp(A, B, (T) 0.5).p, 4)); } }
}
template<class T> static void three(Rng &R) {
  const IV a = ints(R, 9, 5), b = ints(R, 9, 5), c = ints(R, 9, 5), v = ints(R, 3, 6), w = ints(R, 3, 6), k = ints(R, 2, 3); const auto A = re<T>(a), B = re<T>(b), C = re<T>(c), V = re<T>(v), W = re<T>(w); const T al = (T) k[0], be = (T) k[1]; const CMat3<T> MA(A.data()), MB(B.data()); T m[9], y[3], y4[16];
  MatMat3(m, A.data(), B.data()); E("mm3", {a, b}, ex(m, 9)); E("mm3", {a, b}, e3(MA * MB)); E("mm3", {a, b}, e3(MA.MatMat(MB))); MatMatT3(m, A.data(), B.data()); E("mmt3", {a, b}, ex(m, 9)); MatTMat3(m, A.data(), B.data()); E("tmm3", {a, b}, ex(m, 9));
  { auto c1 = C; MatTMat3_ScaleAdd(c1.data(), A.data(), B.data(), al, be); E("tmmsa3", {a, b, c, k}, ex(c1, 9)); }
  Transpose_Mat3(m, A.data()); E("tr3", {a}, ex(m, 9)); E("tr3", {a}, e3(MA.transpose())); E("det3", {a}, {EX(Det_Mat3(A.data()))}); E("det3", {a}, {EX(MA.determinant())}); E("trace", {a}, {EX(MA.trace())}); E("sq", {a}, {EX(MA.squaredNorm())});
  MatVec3(y, A.data(), V.data()); E("mv3", {a, v}, ex(y, 3)); E("mv3", {a, v}, ex(MA.MatVec(V.data()), 3)); E("mv3", {a, v}, ex((MA * cv<T>(v)).p, 3)); E("mv3", {a, v}, ex(Mat3Vec3(A.data(), std::array<T, 3>{V[0], V[1], V[2]}), 3));
  MatTVec3(y, A.data(), V.data()); E("tmv3", {a, v}, ex(y, 3)); MA.MatVecTrans(V.data(), y); E("tmv3", {a, v}, ex(y, 3)); E("tmv3", {a, v}, ex((cv<T>(v) * MA).p, 3)); { double z[3]; VecMat3(z, re<double>(v).data(), re<double>(a).data()); E("tmv3", {a, v}, ex(z, 3)); }
  { auto w1 = W; MatVec3_ScaleAdd(w1.data(), A.data(), V.data(), al, be); E("mvsa3", {a, v, w, k}, ex(w1, 3)); w1 = W; MatTVec3_ScaleAdd(w1.data(), A.data(), V.data(), al, be); E("tmvsa3", {a, v, w, k}, ex(w1, 3)); }
  Mat3_Spin(m, V.data()); E("spin", {v}, ex(m, 9)); E("spin", {v}, ex(Mat3_Spin(cv<T>(v)), 9)); E("spin", {v}, e3(CMat3<T>::Skew(V))); { auto c1 = C; Mat3_Spin_ScaleAdd(c1.data(), V.data(), al, be); E("spinsa", {v, k, c}, ex(c1, 9)); } E("axial", {a}, ex(Vec3_SpinVectorFromMat3<CMat3<T>, T>(MA), 3, 2));
  Mat3_Identity(m, al); E("id3", {k}, ex(m, 9)); E("id3", {k}, ex(Mat3_Identity(al), 9)); E("id3", {k}, e3(CMat3<T>::Identity(al))); E("id3", {k}, e3(CMat3<T>(al))); { CMat3<T> z = MA; z.SetIdentity(al); E("id3", {k}, e3(z)); z.setZero(); E("id3", {{0}}, e3(z)); E("id3", {{0}}, e3(CMat3<T>::Zero())); E("id3", {{0}}, e3(CMat3<T>())); } { auto c1 = C; Mat3_Identity_ScaleAdd(c1.data(), al, be); E("idsa", {c, k}, ex(c1, 9)); }
  E("outer", {v, w}, ex(Mat3_OuterProduct(cv<T>(v), cv<T>(w)), 9)); E("outer", {v, w}, e3(CMat3<T>::OuterProduct(V.data(), W.data()))); { const IV z = ints(R, 3, 6); E("bases", {v, w, z}, ex(Mat3_From3Bases(cv<T>(v), cv<T>(w), cv<T>(z)), 9)); E("bases4", {v, w, z}, e4(CMat4<T>::AffineAxisTransform({V[0], V[1], V[2]}, {W[0], W[1], W[2]}, {(T) z[0], (T) z[1], (T) z[2]}))); }
  E("spin2", {v}, ex(Mat3_CrossCross(cv<T>(v)), 9)); E("irot", {v}, ex(Mat3_IrotPoint<CVec3<T>, T>(cv<T>(v)), 9)); E("sym3", {a}, e3(MA.Sym(), 2)); { const IV s = ints(R, 6, 5); CMat3<T> z; z.SetSymetric(re<T>(s).data()); E("symm", {s}, e3(z)); E("frosym", {s}, {EX(SquareNormFrobenius_SymMat3(re<T>(s).data()))}); } E("diag", {v}, e3(CMat3<T>(V[0], V[1], V[2])));
  E("add", {a, b}, e3(MA + MB)); E("sub", {a, b}, e3(MA - MB)); E("mul", {a, {4}}, e3(MA * (T) 4)); E("mul", {a, {4}}, e3((T) 4 * MA)); E("mul", {a, {1}}, e3(MA / (T) 2, 2)); E("mul", {a, {-1}}, e3(-MA)); E("same", {a}, e3(+MA)); { CMat3<T> z = MA; z += MB; E("add", {a, b}, e3(z)); z = MA; z -= MB; E("sub", {a, b}, e3(z)); z = MA; z *= (T) 3; E("mul", {a, {3}}, e3(z)); z = MA; z /= (T) 4; E("same", {a}, e3(z, 4)); }
  { T z[9]; MA.GetElements(z); E("same", {a}, ex(z, 9)); MA.CopyTo(z); E("same", {a}, ex(z, 9)); MA.CopyToScale(z, al); E("mul", {a, {k[0]}}, ex(z, 9)); for (int i = 0; i < 9; ++i) z[i] = C[i]; MA.AddToScale(z, al); E("addmul", {a, {k[0]}, c}, ex(z, 9)); double d[9]; Copy_Mat3(d, A.data()); E("same", {a}, ex(d, 9)); IV g; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) g.push_back(EX(R(2) ? MA(i, j) : MA.Get(i, j))); E("same", {a}, g); const std::array<T, 9> ar = MA; E("same", {a}, ex(ar, 9)); E("same", {a}, e3(CMat3<T>(ar))); std::stringstream st; st << MA; CMat3<T> io; st >> io; E("same", {a}, e3(io)); }
  MA.AffineMatrixTrans(y4); E("m4t", {a}, ex(y4, 16)); Mat4_Identity(y4); MA.CopyToMat4(y4); E("m4", {a}, ex(y4, 16)); Mat4_Mat3(y4, A.data()); E("m4", {a}, ex(y4, 16)); E("m4", {a}, e4(CMat4<T>::Mat3(A.data()))); Mat4_AffineTrans_RotTransl(y4, A.data(), V.data()); E("rt4t", {a, v}, ex(y4, 16));
  { T z[9]; for (int i = 0; i < 9; ++i) z[i] = 77; Inverse_Mat3(z, A.data()); double d = Det_Mat3(re<double>(a).data()); if (d != 0) { Q("inv3", {a}, fr(z, 9, G)); auto z1 = A; Inverse_Mat3(z1.data()); Q("inv3", {a}, fr(z1, 9, G)); Q("inv3", {a}, fr(MA.Inverse().p_, 9, G)); CMat3<T> z2 = MA; z2.SetInverse(); Q("inv3", {a}, fr(z2.p_, 9, G)); } }
  if (sq(v)) { Q("flat", {v}, fr(Mat3_NormalProjection(cv<T>(v)), 9)); Q("mirror", {v}, fr(Mat3_Mirror(cv<T>(v)), 9)); }
  if (sq(v)) { IV u = v; const int t = R(6); if (t > 1) { for (int i = 2; i > 0; --i) std::swap(u[i], u[R(i + 1)]); for (auto &x : u) if (R(3) == 0) x = -x; } if (t == 1) for (auto &x : u) x = -x; const int s1 = R.range(1, 3), s2 = R.range(1, 3); Q("minrot", {v, u}, fr(Mat3_MinimumRotation(cv<T>(v) * (T) s1, cv<T>(u) * (T) s2), 9)); }
  // the plane
  { const IV p = ints(R, 2, 5), h = ints(R, 9, 3); const auto P = re<T>(p), H = re<T>(h); T z[2]; const long d = h[6] * p[0] + h[7] * p[1] + h[8]; if (d) { Vec2_Mat3Vec2_Homography(z, H.data(), P.data()); Q("hom2", {h, p}, fr(z, 2)); Q("hom2", {h, p}, fr(Vec2_Mat3Vec2_Homography(H.data(), P.data()), 2)); } Vec2_Mat3Vec2_AffineDirection(z, H.data(), P.data()); E("dir2", {h, p}, ex(z, 2)); Mat3_AffineTranslation(m, P.data()); E("move3", {p}, ex(m, 9)); if (sq(p)) { Mat3_AffineRotation(m, (T) (2 * std::atan2((double) p[0], (double) p[1]))); Q("turn2", {p}, fr(m, 9)); } }
  { const IV p = ints(R, 4, 6), q = ints(R, 4, 6), x = ints(R, 2, 9), z = ints(R, 2, 9); const auto P = re<T>(p), S = re<T>(q), X = re<T>(x); T r[4], s[2]; MatVec2(s, P.data(), X.data()); E("mv2", {p, x}, ex(s, 2)); MatMat2(r, P.data(), S.data()); E("mm2", {p, q}, ex(r, 4)); const CMat2<T> a2(P[0], P[1], P[2], P[3]), b2(S[0], S[1], S[2], S[3]); E("tr2", {p}, ex(a2.transpose().p, 4)); { CMat2<T> t2 = a2; t2.transposeInPlace(); E("tr2", {p}, ex(t2.p, 4)); t2 = a2; t2 += b2; E("add", {p, q}, ex(t2.p, 4)); t2 -= b2; E("same", {p}, ex(t2.p, 4)); t2 *= (T) 3; E("mul", {p, {3}}, ex(t2.p, 4)); t2 /= (T) 3; } E("add", {p, q}, ex((a2 + b2).p, 4)); E("sub", {p, q}, ex((a2 - b2).p, 4)); E("mul", {p, {-1}}, ex((-a2).p, 4)); E("mul", {p, {2}}, ex(((T) 2 * a2).p, 4)); E("det2", {p}, {EX(a2.determinant())}); a2.multiply_vec2(s, X.data()); E("mv2", {p, x}, ex(s, 2)); E("outer", {x, z}, ex(CMat2<T>::outer_product(X.data(), re<T>(z).data()).p, 4));
    double d[4]; const auto pd = re<double>(p); const bool ok = InverseMat2(d, pd.data()); const bool reg = p[0] * p[3] != p[1] * p[2]; if (ok != reg) E("same", {{1}}, {0}); if (ok) Q("inv2", {p}, fr(d, 4)); gramian2(d, pd.data()); E("gram2", {p}, ex(d, 4)); VLVt2(d, x[0], x[1], pd.data()); E("vlv2", {p, x}, ex(d, 4)); }
}
template<class T> static void four(Rng &R) {
  const IV a = ints(R, 16, 4), b = ints(R, 16, 4), x = ints(R, 4, 5), v = ints(R, 3, 5); const auto A = re<T>(a), B = re<T>(b), X = re<T>(x), V = re<T>(v); const CMat4<T> MA(A.data()), MB(B.data()); T m[16], y[4];
  MatMat4(m, A.data(), B.data()); E("mm4", {a, b}, ex(m, 16)); E("mm4", {a, b}, e4(MA * MB)); E("add", {a, b}, e4(MA + MB)); E("sub", {a, b}, e4(MA - MB)); Transpose_Mat4(m, A.data()); E("tr4", {a}, ex(m, 16)); E("tr4", {a}, e4(MA.transpose()));
  MatVec4(y, A.data(), X.data()); E("mv4", {a, x}, ex(y, 4)); VecMat4(y, X.data(), A.data()); E("vm4", {a, x}, ex(y, 4)); Mat4Vec3(y, A.data(), V.data()); E("m4v3", {a, v}, ex(y, 3)); E("m4v3", {a, v}, ex(MA.MultVec3(V.data()), 3)); E("m4v3", {a, v}, ex(Mat4Vec3(A.data(), std::array<T, 3>{V[0], V[1], V[2]}), 3)); { double z[3]; Vec3Mat4(z, re<double>(v).data(), re<double>(a).data()); E("v3m4", {a, v}, ex(z, 3)); }
  Vec3_Mat4Vec3_Affine(y, A.data(), V.data()); E("aff", {a, v}, ex(y, 3)); E("m3", {a}, ex(MA.GetMat3(), 9)); E("trans", {a}, ex(MA.GetTranslationComponent(), 3)); { CMat3<T> z; z.SetMat4(A.data()); E("m3", {a}, e3(z)); }
  const long d = a[12] * v[0] + a[13] * v[1] + a[14] * v[2] + a[15], e = a[3] * v[0] + a[7] * v[1] + a[11] * v[2] + a[15];
  if (d) { Q("hom3", {a, v}, fr(Vec3_Mat4Vec3_Homography(A.data(), V.data()), 3)); Q("hom3", {a, v}, fr(MA.MultVec3_Homography(V.data()), 3)); Q("homxy", {a, v}, fr(Vec2_Mat4Vec3_Homography(A.data(), V.data()), 2)); Q("homxy", {a, v}, fr(MA.Vec2_MultVec3_Homography(V.data()), 2)); }
  if (e) { Vec3_Vec3Mat4_Homography(y, V.data(), A.data()); Q("vhom3", {a, v}, fr(y, 3)); }
  Mat4_Identity(m); E("scale4", {{1, 1, 1}}, ex(m, 16)); E("scale4", {{1, 1, 1}}, e4(CMat4<T>::Identity())); E("scale4", {{1, 1, 1}}, e4(CMat4<T>())); Mat4_AffineScale(m, V[0]); E("scale4", {{v[0], v[0], v[0]}}, ex(m, 16)); E("scale4", {{v[0], v[0], v[0]}}, e4(CMat4<T>::AffineScale(V[0]))); E("scale4", {v}, e4(CMat4<T>::ScaleXYZ(V[0], V[1], V[2]))); { CMat4<T> z = MA; z.SetScale(V[0], V[1], V[2]); E("scale4", {v}, e4(z)); z = MA; z.SetIdentity(); E("scale4", {{1, 1, 1}}, e4(z)); z = MA; z.SetAffineTranslate(V[0], V[1], V[2]); E("move4", {v}, e4(z)); }
  Mat4_AffineTranslation(m, V[0], V[1], V[2]); E("move4", {v}, ex(m, 16)); E("move4", {v}, ex(Mat4_AffineTranslation(V[0], V[1], V[2]), 16)); E("move4", {v}, e4(CMat4<T>::Translation(V.data()))); E("move4", {v}, e4(CMat4<T>::Translation(std::array<T, 3>{V[0], V[1], V[2]}))); E("spin4", {v}, e4(CMat4<T>::Skew(V.data())));
  if (a[12] == 0 && a[13] == 0) {} { auto z = A; z[12] = z[13] = z[14] = 0; z[15] = 1; IV az = a; az[12] = az[13] = az[14] = 0; az[15] = 1; Translate_Mat4Affine(z.data(), V.data()); E("moved4", {az, v}, ex(z, 16)); }
  { double z[16]; Copy_Mat4(z, A.data()); E("same", {a}, ex(z, 16)); MA.CopyTo(z); E("same", {a}, ex(z, 16)); E("same", {a}, e4(MA.template cast<double>())); const std::array<T, 16> ar = MA; E("same", {a}, ex(ar, 16)); IV g; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g.push_back(EX(MA(i, j))); E("same", {a}, g); }
  // inverses of well conditioned matrices with awkward pivots: a permuted triangular matrix
  { const int n = 4; long L[4][4]; const int sc[] = {1, 2, 3, 7, 49, -1, -3, -49}; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) L[i][j] = j > i ? 0 : j == i ? (R(2) ? 1 : -1) : R.range(-1, 1); long U[4][4]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) U[i][j] = j < i ? 0 : j == i ? (R(2) ? 1 : -1) : R.range(-1, 1); IV z; int pm[4] = {0, 1, 2, 3}; if (R(2)) for (int i = 3; i > 0; --i) std::swap(pm[i], pm[R(i + 1)]); const int s = sc[R(8)]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { long t = 0; for (int k = 0; k < n; ++k) t += L[pm[i]][k] * U[k][j]; z.push_back(t * s); } const auto Z = re<T>(z); Inverse_Mat4(m, Z.data()); Q("inv4", {z}, fr(m, 16, G)); Q("inv4", {z}, fr(CMat4<T>(Z.data()).Inverse().mat, 16, G)); Q("inv4", {z}, fr(Inverse_Mat4(Z.data()), 16, G)); }
  // views
  { IV lo = ints(R, 3, 4), hi = lo; for (auto &t : hi) t += R.range(1, 5); Mat4_AffineProjectionOrtho(m, (T) lo[0], (T) hi[0], (T) lo[1], (T) hi[1], (T) lo[2], (T) hi[2]); Q("ortho", {lo, hi}, fr(m, 16)); Q("ortho", {lo, hi}, fr(CMat4<T>::AffineOrthogonalProjection((T) lo[0], (T) hi[0], (T) lo[1], (T) hi[1], (T) lo[2], (T) hi[2]).mat, 16)); }
  { const int k = R.range(1, 3), r = R.range(1, 3), z1 = -R.range(1, 4), z0 = z1 - R.range(1, 5); Mat4_AffineProjectionFrustum(m, (T) (2 * std::atan(1. / k)), (T) r, (T) z0, (T) z1); Q("frustum", {{k, r}, {z0, z1}}, fr(m, 16)); }
  { const IV e0 = ints(R, 3, 4), f = nonzero(R, 3, 3); IV u, c, cr; do { u = nonzero(R, 3, 3); cr = {f[1] * u[2] - f[2] * u[1], f[2] * u[0] - f[0] * u[2], f[0] * u[1] - f[1] * u[0]}; } while (sq(cr) == 0); for (int i = 0; i < 3; ++i) c.push_back(e0[i] + f[i]); Mat4_AffineLookAt(m, (T) e0[0], (T) e0[1], (T) e0[2], (T) c[0], (T) c[1], (T) c[2], (T) u[0], (T) u[1], (T) u[2]); Q("look", {e0, c, u}, fr(m, 16)); }
  { IV z = ints(R, 16, 3); z[12] = z[13] = z[14] = 0; z[15] = 1; if (z[2] || z[6] || z[10]) { const IV s = {R(5), R(4), R.range(2, 6), R.range(2, 6)}; const auto r = RayFromInverseMvpMatrix(re<double>(z).data(), (int) s[0], (int) s[1], (unsigned) s[2], (unsigned) s[3]); IV w = fr(r.first, 3); for (long t : fr(r.second, 3)) w.push_back(t); Q("ray", {z, s}, w); } }
}
static const IM PT = {{0, 0, 0}, {1, 0, 0}, {1, 2, -1}, {-3, 1, 2}};
template<class T> static void walk(const IM &ops) {
  J("Begin").emit();
  CMat4<T> A; T B[16]; Mat4_Identity(B); std::vector<T> q = {0, 0, 0, 1}, t = {0, 0, 0}; T s = 1;
  for (const auto &o : ops) {
    IV g(o.begin() + 1, o.end());
    if (o[0] == 1) { std::vector<T> u = re<T>(g); Normalize_Quat(u.data()); A = CMat4<T>::Quat(u.data()) * A; if (g[3]) { const T v[3] = {2 * u[0] / u[3], 2 * u[1] / u[3], 2 * u[2] / u[3]}; Rotate_Mat4AffineRodriguez(B, v); } else { T c[16], r[16]; Mat4_AffineQuaternion(r, u.data()); MatMat4(c, r, B); Copy_Mat4(B, c); } T r[4], y[3]; QuatQuat(r, u.data(), q.data()); q.assign(r, r + 4); QuatVec(y, u.data(), t.data()); t.assign(y, y + 3); }
    else if (o[0] == 2) { const auto v = re<T>(g); A = CMat4<T>::Translation(v.data()) * A; Translate_Mat4Affine(B, v.data()); for (int i = 0; i < 3; ++i) t[i] += v[i]; }
    else { const T k = (T) g[0]; A = CMat4<T>::AffineScale(k) * A; T S[16], c[16]; Mat4_AffineScale(S, k); MatMat4(c, S, B); Copy_Mat4(B, c); for (auto &x : t) x *= k; s *= k; }
    double C[16]; { std::vector<double> qd(q.begin(), q.end()), td(t.begin(), t.end()); Mat4_ScaleRotTrans(C, s, qd.data(), td.data()); }
    IM m = {fr(A.mat, 16), fr(B, 16), fr(C, 16)};
    IM v; { T z[16]; Inverse_Mat4(z, B); v = {fr(A.Inverse().mat, 16, G), fr(z, 16, G)}; }
    std::string pr = "["; auto put = [&](const std::function<IV(const T *)> &f) { if (pr.size() > 1) pr += ","; pr += "["; for (size_t i = 0; i < PT.size(); ++i) { const auto p = re<T>(PT[i]); if (i) pr += ","; pr += J::str(f(p.data())); } pr += "]"; };
    put([&](const T *p) { T y[3]; Vec3_Mat4Vec3_Affine(y, A.mat, p); return fr(y, 3); }); put([&](const T *p) { return fr(Vec3_Mat4Vec3_Homography(B, p), 3); }); put([&](const T *p) { T y[4]; const T x[4] = {p[0], p[1], p[2], 1}; MatVec4(y, B, x); return fr(y, 3); }); put([&](const T *p) { T y[3]; QuatVec(y, q.data(), p); for (int i = 0; i < 3; ++i) y[i] = s * y[i] + t[i]; return fr(y, 3); }); pr += "]";
    J("Step").arr("q", o).arr2("m", m).arr2("v", v).arr2("p", PT).raw("r", pr).emit();
  }
}
int main(int argc, char **argv) {
  init(argc, argv);
  const auto L = read_lines(input_path);
  for (size_t i0 = 0; i0 < L.size(); i0 += 8) run_case([&]() { J("Start").emit(); for (size_t i = i0; i < std::min(L.size(), i0 + 8); ++i) { IM ops; size_t c = 1; for (long k = 0; k < L[i][0]; ++k) { ops.emplace_back(L[i].begin() + c + 1, L[i].begin() + c + 1 + L[i][c]); c += 1 + L[i][c]; } if ((i + seed) % 2) walk<float>(ops); else walk<double>(ops); } });
  const int n = thorough ? 160 : 32;
  for (int it = 0; it < n; ++it) run_case([&]() { J("Start").emit(); Rng R(seed * 104729 + it * 17 + 3); for (int r = 0; r < 4; ++r) { rotations<double>(R); rotations<float>(R); three<double>(R); three<float>(R); four<double>(R); four<float>(R); } });
  return 0;
}
