// measures of meshes: bounds, areas, volumes, centres, masses, inertia, normals; affine maps (C27)
#include "vh.h"
#include <map>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_tri.h"
#include "delfem2/msh_boundingbox.h"
#include "delfem2/msh_center_of_gravity.h"
#include "delfem2/msh_affine_transformation.h"
#include "delfem2/msh_normal.h"
#include "delfem2/msh_unindexed.h"
#include "delfem2/mshmisc.h"
#include "delfem2/point_on_surface_mesh.h"
#include "delfem2/sampler_trimesh.h"
using namespace vh;
using namespace delfem2;
typedef std::vector<long> IV;
typedef std::vector<IV> IM;
typedef std::vector<double> DV;
typedef std::vector<float> FV;
typedef std::vector<unsigned int> UV;
typedef CVec3d V3;
static const double F = 8192;
struct Frame { double s; double o[3]; };
static const Frame FR[] = {{1, {0, 0, 0}}, {0.25, {1, -2, 3}}, {3, {-7, 11, 5}}, {0.37, {0.5, 0.25, -1.5}}};
static long fx(double x) { return std::fabs(x) < 1e5 ? (long) std::rint(x * F) : BAD; }
static IV fxv(const double *x, int n) { IV r; for (int i = 0; i < n; ++i) r.push_back(fx(x[i])); return r; }
static DV coords(const Frame &f, const IM &P, int nd = 3) { DV r; for (auto &p : P) for (int i = 0; i < nd; ++i) r.push_back(f.o[i] + f.s * p[i]); return r; }
static FV flt(const DV &x) { return FV(x.begin(), x.end()); }
static UV flatten(const IM &T) { UV r; for (auto &t : T) for (long i : t) r.push_back((unsigned) i); return r; }
template<class T> static IV unit(const Frame &f, const T *x) { double y[3]; for (int i = 0; i < 3; ++i) y[i] = (x[i] - f.o[i]) / f.s; return fxv(y, 3); }
// integer points back from real ones
template<class C> static IM ints(const C &x, int nd, const Frame &f = FR[0]) { IM r; for (size_t i = 0; i + nd <= x.size(); i += nd) { IV p; for (int k = 0; k < nd; ++k) p.push_back(RX((x[i + k] - f.o[k]) / f.s, 1, 1e-3)); r.push_back(p); } return r; }
static IM fracs(const DV &x, int nd) { IM r; for (size_t i = 0; i + nd <= x.size(); i += nd) r.push_back(fxv(x.data() + i, nd)); return r; }
static void mesh(const IM &P, const IM &T, const IM &K = {}, const IM &N = {}) { J("Mesh").arr2("p", P).arr2("t", T).arr2("k", K).arr2("n", N).emit(); }
static IV sub(const IV &a, const IV &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static IV crs(const IV &a, const IV &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static long sq(const IV &a) { return a[0] * a[0] + a[1] * a[1] + a[2] * a[2]; }
static long root(long n) { for (long k = 0; k <= 100; ++k) if (k * k == n) return k; return -1; }
static long area2(const IV &a, const IV &b, const IV &c) { return root(sq(crs(sub(b, a), sub(c, a)))); }
static IV rp(Rng &R, int a, int b, int nd = 3) { IV p; for (int i = 0; i < nd; ++i) p.push_back(R.range(a, b)); return p; }
static const int FACE[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
template<class V> static void shuffle(Rng &R, V &v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[R((int) i)]); }
// rename points by a random permutation, with a few unused points thrown in
static void rename(Rng &R, IM &P, IM &T, IM &K, int extra) {
  for (int i = 0; i < extra; ++i) P.push_back(rp(R, 0, 2));
  std::vector<int> m(P.size()); for (size_t i = 0; i < m.size(); ++i) m[i] = (int) i;
  shuffle(R, m);
  IM Q(P.size()); for (size_t i = 0; i < m.size(); ++i) Q[m[i]] = P[i];
  P = Q; for (auto &t : T) for (auto &i : t) i = m[i]; for (auto &t : K) for (auto &i : t) i = m[i];
}

static void solids(Rng &R, const IM &P, const IM &T, const IM &K) {
  mesh(P, T, K);
  const Frame &f = FR[R(4)];
  const DV X = coords(f, P); const UV t = flatten(T), k = flatten(K);
  const double s3 = f.s * f.s * f.s;
  { double v = 7, c[3] = {9, 9, 9}; CG_MeshTet3(v, c, X, k); J("CgTet").ks("f", "d").kv("v", fx(v / s3)).arr("x", unit(f, c)).emit(); }
  { const FV Y = flt(coords(FR[0], P)); float v = 7, c[3] = {9, 9, 9}; CG_MeshTet3(v, c, Y, k); J("CgTet").ks("f", "f").kv("v", fx(v)).arr("x", unit(FR[0], c)).emit(); }
  { double c[3] = {9, 9, 9}; CG_MeshTri3_Solid(c, X, t); J("CgSolid").ks("f", "d").arr("x", unit(f, c)).emit(); }
  { const FV Y = flt(coords(FR[1], P)); float c[3] = {9, 9, 9}; CG_MeshTri3_Solid(c, Y, t); J("CgSolid").ks("f", "f").arr("x", unit(FR[1], c)).emit(); }
  { DV m(P.size(), 5.); const int rho = R.range(1, 3); MassPoint_Tet3D(m.data(), rho, X.data(), P.size(), k.data(), K.size()); for (auto &x : m) x /= s3; J("MassTet").kv("rho", rho).arr("m", fxv(m.data(), (int) m.size())).emit(); }
  { double I[9] = {}; for (auto &q : T) { V3 p[3]; for (int i = 0; i < 3; ++i) p[i] = V3(P[q[i]][0], P[q[i]][1], P[q[i]][2]); const auto J9 = Mat3_IrotTriSolid(p[0], p[1], p[2]); for (int i = 0; i < 9; ++i) I[i] += J9[i]; } J("InertSolid").arr("x", fxv(I, 9)).emit(); }
  UV tf; for (size_t a = 0; a < K.size(); ++a) for (unsigned b = 0; b < 4; ++b) { tf.push_back((unsigned) a); tf.push_back(b); }
  for (int i = 0; i < 4; ++i) {
    const int a = R((int) tf.size() / 2), w0 = R(9), w1 = R(9 - w0);
    const DV Z = coords(FR[0], P);
    const auto x = PointOnSurfaceMesh<double>(a, w0 / 8., w1 / 8.).PositionOnFaceOfMeshTet(Z, k, tf);
    J("OnFace").kv("t", a / 4).kv("face", a % 4).arr("w", IV{w0, w1}).arr("x8", IV{EX(x[0], 8), EX(x[1], 8), EX(x[2], 8)}).emit();
  }
}
static void shells(Rng &R, const IM &P, const IM &T) {
  mesh(P, T);
  const Frame &f = FR[R(4)];
  const DV X = coords(f, P), Z = coords(FR[0], P); const FV Xf = flt(coords(FR[1], P)); const UV t = flatten(T);
  const double s2 = f.s * f.s; const size_t np = P.size(), nt = T.size();
  IV all; std::vector<int> flg; IV sel; const int which = R(3); for (size_t i = 0; i < nt; ++i) { flg.push_back(R(3)); sel.push_back(flg.back() == which); }
  { double c[3] = {9, 9, 9}; CG_MeshTri3_Shell(c, X, t); J("CgShell").ks("f", "d").arr("s", all).arr("x", unit(f, c)).kv("a", -1).emit(); }
  { float c[3] = {9, 9, 9}; CG_MeshTri3_Shell(c, Xf, t); J("CgShell").ks("f", "f").arr("s", all).arr("x", unit(FR[1], c)).kv("a", -1).emit(); }
  { double c[3] = {9, 9, 9}; const double a = CG_TriMsh3Flg_Shell(c, X, t, which, flg); J("CgShell").ks("f", "flag").arr("s", sel).arr("x", unit(f, c)).kv("a", fx(a / s2)).emit(); }
  { const double a = Area_MeshTri3(X, t, [&](unsigned i) { return sel[i] == 1; }); J("Area").arr("s", sel).kv("a", fx(a / s2)).emit(); }
  { const double a = Area_MeshTri3(X, t, [](unsigned) { return true; }); J("Area").arr("s", all).kv("a", fx(a / s2)).emit(); }
  for (int i = 0; i < 2; ++i) { const int a = R((int) nt); std::vector<int> ti(t.begin(), t.end()); double c[3]; { DV Z3 = Z; for (double &x : Z3) x *= 1000; CG_Tri(c[0], c[1], c[2], a, Z3, ti); } J("CgTri").kv("t", a).arr("x", fxv(c, 3)).emit(); }
  { double c[3]; CG_Point3(c, X); J("CgPt").ks("f", "d").arr("x", unit(f, c)).emit(); float d[3]; CG_Point3(d, Xf); J("CgPt").ks("f", "f").arr("x", unit(FR[1], d)).emit(); }
  { DV c(3, 1.); const double r = CentsMaxRad_MeshTri3(c, X, t); IM x; for (size_t i = 0; i < nt; ++i) x.push_back(unit(f, c.data() + i * 3)); J("Cents").arr2("x", x).kv("r9", RX(9 * r * r / s2, 1, 1e-6)).emit(); }
  { DV m(np, 5.); const int rho = R.range(1, 3); MassPoint_Tri3D(m.data(), rho, X.data(), np, t.data(), nt); for (auto &x : m) x /= s2; J("MassTri").kv("rho", rho).kv("flat", 0).arr("m", fxv(m.data(), (int) np)).emit(); }
  { DV n(np * 3, 3.); Normal_MeshTri3D(n.data(), X.data(), np, t.data(), nt); J("Norms").ks("f", "d").arr2("r", fracs(n, 3)).emit(); FV m(np * 3, 3.f); Normal_MeshTri3D(m.data(), Xf.data(), np, t.data(), nt); J("Norms").ks("f", "f").arr2("r", fracs(DV(m.begin(), m.end()), 3)).emit(); }
  for (int i = 0; i < 2; ++i) { const int a = R((int) nt); const auto n = Normal_TriInMeshTri3((unsigned) a, Z.data(), t.data()); J("TriNorm").kv("t", a).arr("x", IV{EX(n[0]), EX(n[1]), EX(n[2])}).emit(); }
  { DV a, b(7), c, d; UnidexedVertexDataTriMesh(a, Z, t); UnindexedNormalTriMesh3(b, X, t); double rgb[3][3]; IM RGB; for (auto &q : rgb) { IV v; for (double &x : q) { v.push_back(R(9)); x = v.back(); } RGB.push_back(v); }
    UnindexedColorTriMesh3(c, rgb, flg, t); UnindexedEdgeMesh3_UnindexedTrimesh3(d, a);
    J j("Uni"); j.arr2("x", ints(a, 9, Frame{1, {0, 0, 0}}).size() == nt ? [&] { IM r; for (size_t i = 0; i < nt; ++i) { IV v; for (int k = 0; k < 9; ++k) v.push_back(EX(a[i * 9 + k])); r.push_back(v); } return r; }() : IM());
    IM e, cc; for (size_t i = 0; (i + 1) * 18 <= d.size(); ++i) { IV v; for (int k = 0; k < 18; ++k) v.push_back(EX(d[i * 18 + k])); e.push_back(v); }
    for (size_t i = 0; (i + 1) * 9 <= c.size(); ++i) { IV v; for (int k = 0; k < 9; ++k) v.push_back(EX(c[i * 9 + k])); cc.push_back(v); }
    std::string nn = "["; for (size_t i = 0; (i + 1) * 9 <= b.size(); ++i) { if (i) nn += ","; nn += "["; for (int k = 0; k < 3; ++k) { if (k) nn += ","; nn += J::str(fxv(b.data() + i * 9 + k * 3, 3)); } nn += "]"; } nn += "]";
    j.arr2("d", e).arr2("col", cc).arr2("rgb", RGB).arr("g", flg).raw("n", nn).emit(); }
  IM nv; for (size_t i = 0; i < np; ++i) nv.push_back(rp(R, -2, 2)); const DV NV = coords(FR[0], nv);
  for (int i = 0; i < 4; ++i) {
    const int a = R((int) nt), w0 = R(9), w1 = R(9 - w0); const PointOnSurfaceMesh<double> s(a, w0 / 8., w1 / 8.);
    const auto x = i % 2 ? s.PositionOnMeshTri3(Z, t) : s.PositionOnMeshTri3(Z.data(), np, t.data(), nt);
    J("OnTri").kv("t", a).arr("w", IV{w0, w1}).arr("x8", IV{EX(x[0], 8), EX(x[1], 8), EX(x[2], 8)}).emit();
    const auto n = i % 2 ? s.UnitNormalOnMeshTri3(NV, t) : s.UnitNormalOnMeshTri3(Z.data(), (unsigned) np, t.data(), (unsigned) nt, NV.data());
    bool zero = true; for (int k = 0; k < 3; ++k) if (w0 * nv[T[a][0]][k] + w1 * nv[T[a][1]][k] + (8 - w0 - w1) * nv[T[a][2]][k]) zero = false;
    if (!zero) J("OnNorm").kv("t", a).arr("w", IV{w0, w1}).arr2("nv", nv).arr("x", fxv(n.data(), 3)).emit();
  }
  for (int i = 0; i < 6; ++i) {
    const int a = R((int) nt + 2), w0 = R.range(-2, 10), w1 = R.range(-2, 10), eps = R(3);
    J("Valid").kv("t", a).arr("w", IV{w0, w1}).kv("eps", eps).kv("r", PointOnSurfaceMesh<double>(a, w0 / 8., w1 / 8.).Check(Z, t, eps / 8.)).emit();
  }
  for (int m = 0; m < 2; ++m) {
    double tot = 0; for (size_t i = 0; i < nt; ++i) if (!m || sel[i]) tot += (double) area2(P[T[i][0]], P[T[i][1]], P[T[i][2]]);
    if (tot == 0) continue;
    IV hit(nt, 0), quarter(4, 0); int bad = 0; const int N = 1500;
    auto count = [&](std::tuple<unsigned, double, double> q) {
      const unsigned i = std::get<0>(q); const double r0 = std::get<1>(q), r1 = std::get<2>(q);
      if (i >= nt || !(r0 >= 0) || !(r1 >= 0) || !(r0 + r1 <= 1 + 1e-12)) { ++bad; return; }
      ++hit[i]; ++quarter[r0 > 0.5 ? 0 : r1 > 0.5 ? 1 : r0 + r1 < 0.5 ? 2 : 3];
    };
    if (m) { RandomSamplingOnMeshTri3Selective S(Z, t, [&](unsigned i) { return sel[i] == 1; }); S.rndeng.seed((unsigned) R(1 << 20)); for (int i = 0; i < N; ++i) count(S.Sample()); }
    else { RandomSamplingOnMeshTri3 S(Z, t); S.rndeng.seed((unsigned) R(1 << 20)); for (int i = 0; i < N; ++i) count(S.Sample()); }
    J("Samp").arr("s", m ? sel : all).arr("hit", hit).arr("quarter", quarter).kv("bad", bad).emit();
  }
  // smoothing moves the first point first; the others follow with positions already moved
  { std::vector<int> ti(t.begin(), t.end()), ind(1, 0), el; bool ok = true;
    for (size_t p = 0; p < np; ++p) { double a = 0; for (size_t i = 0; i < nt; ++i) for (long v : T[i]) if (v == (long) p) { el.push_back((int) i); a += (double) area2(P[T[i][0]], P[T[i][1]], P[T[i][2]]); } ind.push_back((int) el.size()); if (p == 0 && a == 0) ok = false; }
    if (ok) { DV Y = X; LaplacianSmoothing(Y, ti, ind, el); J("Smooth").arr("x", unit(f, Y.data())).emit(); } }
}
// a triangle with an integer area which divides 72
static IV nice(Rng &R, IM &P) {
  for (;;) {
    IM q = {rp(R, 0, 3), rp(R, 0, 3), rp(R, 0, 3)}; long a = area2(q[0], q[1], q[2]);
    if (a <= 0 || 72 % a) continue;
    IV t; for (auto &p : q) { size_t i = 0; while (i < P.size() && P[i] != p) ++i; if (i == P.size()) P.push_back(p); t.push_back((long) i); }
    return t;
  }
}
// the surface of a few unit cubes: quadrilaterals
static void voxels(Rng &R, IM &P, IM &Q) {
  std::map<IV, int> cell; IV c = {0, 0, 0}; const int n = R.range(1, 5);
  for (int i = 0; i < n; ++i) { cell[c] = 1; c[R(3)] += R(2) ? 1 : -1; }
  for (auto &x : cell) for (int a = 0; a < 3; ++a) for (int s = 0; s < 2; ++s) {
    IV o = x.first; o[a] += s ? 1 : -1; if (cell.count(o)) continue;
    const int b = (a + 1) % 3, d = (a + 2) % 3; IV t;
    for (int k = 0; k < 4; ++k) {
      IV p = x.first; p[a] += s; const int kk = s ? k : 3 - k; if (kk == 1 || kk == 2) p[b]++; if (kk >= 2) p[d]++;
      size_t i = 0; while (i < P.size() && P[i] != p) ++i; if (i == P.size()) P.push_back(p); t.push_back((long) i);
    }
    Q.push_back(t);
  }
}
static void bounds(Rng &R) {
  const Frame &f = FR[R(3)];
  IM P; const int n = R.range(1, 6), lo = R(2) ? -9 : 1, hi = R(3) ? 9 : -1; for (int i = 0; i < n; ++i) { P.push_back(rp(R, lo < hi ? lo : -9, lo < hi ? hi : -1)); if (R(4) == 0) P.back()[R(3)] = P[0][0]; }
  const DV X = coords(f, P); const FV Y = flt(X);
  auto box = [&](auto *lo3, auto *hi3) { J("Box").arr2("q", P).arr("lo", ints(std::vector<double>(lo3, lo3 + 3), 3, f)[0]).arr("hi", ints(std::vector<double>(hi3, hi3 + 3), 3, f)[0]).emit(); };
  { double a[3], b[3]; BoundingBox3_Points3(a, b, X.data(), P.size()); box(a, b); } { float a[3], b[3]; BoundingBox3_Points3(a, b, Y.data(), P.size()); box(a, b); }
  { double a[3] = {1, 1, 1}, b[3] = {-1, -1, -1}; for (int i = 0; i < n; ++i) updateMinMaxXYZ(a[0], b[0], a[1], b[1], a[2], b[2], X[i * 3], X[i * 3 + 1], X[i * 3 + 2]); box(a, b); }
  const IM ID = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  auto wide = [&](const char *fn, const double *c, const double *w, const IM &q, const IM &fr, bool none = false) {
    IV c2, ww; for (int i = 0; i < 3; ++i) { double o = 0; for (int k = 0; k < 3; ++k) o += f.o[k] * fr[i][k]; c2.push_back(none ? EX(c[i]) : RX(2 * (c[i] - o) / f.s, 1, 1e-3)); ww.push_back(none ? EX(w[i]) : RX(w[i] / f.s, 1, 1e-3)); }
    J("Wide").ks("fn", fn).arr2("q", q).arr2("f", fr).arr("c2", c2).arr("w", ww).emit();
  };
  double c[3], w[3]; float cf[3], wf[3];
  auto up = [&]() { for (int i = 0; i < 3; ++i) { c[i] = cf[i]; w[i] = wf[i]; } };
  CenterWidth_Points3(c, w, X); wide("Points3", c, w, P, ID); CenterWidth_Points3(cf, wf, Y); up(); wide("Points3f", c, w, P, ID);
  CenterWidth_Points3(c[0], c[1], c[2], w[0], w[1], w[2], X); wide("Points3xyz", c, w, P, ID);
  CenterWidth_Point3(c[0], c[1], c[2], w[0], w[1], w[2], X.data(), P.size()); wide("Point3", c, w, P, ID); CenterWidth_Point3(cf[0], cf[1], cf[2], wf[0], wf[1], wf[2], Y.data(), P.size()); up(); wide("Point3f", c, w, P, ID);
  { CenterWidth_Points3(c, w, DV()); wide("none", c, w, {}, ID, true); CenterWidth_Point3(c[0], c[1], c[2], w[0], w[1], w[2], (double *) nullptr, 0); wide("none", c, w, {}, ID, true); }
  J("Long").arr2("q", P).kv("w", RX(Size_Points3D_LongestAABBEdge(X) / f.s, 1, 1e-3)).emit();
  { IM fr = {rp(R, -2, 2), rp(R, -2, 2), rp(R, -2, 2)}; const DV e = coords(FR[0], fr); GetCenterWidthLocal(c[0], c[1], c[2], w[0], w[1], w[2], X, e.data(), e.data() + 3, e.data() + 6); wide("Local", c, w, P, fr); }
  { // groups of elements: uniform and mixed ones
    const unsigned nn = (unsigned) R.range(2, 5); const int ne = R.range(1, 4), g = R(3); UV el, mix, ind(1, 0); std::vector<int> grp; IM q, qm;
    for (int e = 0; e < ne; ++e) { grp.push_back(R(3)); const int m = R.range(1, 4); for (unsigned k = 0; k < nn; ++k) { const int i = R(n); el.push_back(i); if (grp.back() == g) q.push_back(P[i]); } for (int k = 0; k < m; ++k) { const int i = R(n); mix.push_back(i); if (grp.back() == g) qm.push_back(P[i]); } ind.push_back((unsigned) mix.size()); }
    GetCenterWidthGroup(c[0], c[1], c[2], w[0], w[1], w[2], X, el, nn, g, grp); wide("Group", c, w, q, ID, q.empty());
    GetCenterWidthGroup(c[0], c[1], c[2], w[0], w[1], w[2], X, ind, mix, g, grp); wide("GroupMixed", c, w, qm, ID, qm.empty());
    double cw[6]; GetCenterWidth3DGroup(cw, X, ind, mix, g, grp); wide("Group3D", cw, cw + 3, qm, ID, qm.empty());
  }
}
static void affine(Rng &R) {
  IM P; const int n = R.range(1, 5), nd = R.range(1, 3); for (int i = 0; i < n; ++i) P.push_back(rp(R, -5, 5));
  IM Pn; for (auto &p : P) Pn.push_back(IV(p.begin(), p.begin() + nd));
  const int s = R.range(-3, 4); const IV v = rp(R, -4, 4);
  auto pts = [](const char *ev, const IM &q, const IM &r) { J j(ev); j.arr2("q", q).arr2("r", r); return j; };
  { DV X = coords(FR[0], P); Scale_PointsX(X, (double) s); pts("Scale", P, ints(X, 3)).kv("s", s).emit(); }
  { DV X = coords(FR[0], Pn, nd); Scale_Points(X.data(), n, nd, (double) s); pts("Scale", Pn, ints(X, nd)).kv("s", s).emit(); FV Y = flt(coords(FR[0], P)); Scale_Points(Y.data(), n, 3, (float) s); pts("Scale", P, ints(Y, 3)).kv("s", s).emit(); }
  { DV X = coords(FR[0], Pn, nd); double t[3] = {(double) v[0], (double) v[1], (double) v[2]}; Translate_Points(X.data(), n, nd, t); pts("Move", Pn, ints(X, nd)).arr("v", v).emit(); }
  { DV X = coords(FR[0], P); Translate_Points3(X, (double) v[0], (double) v[1], (double) v[2]); pts("Move", P, ints(X, 3)).arr("v", v).emit(); }
  { IM P2; for (auto &p : P) P2.push_back({p[0], p[1]}); FV X = flt(coords(FR[0], P2, 2)); Translate_Points2(X, (float) v[0], (float) v[1]); pts("Move", P2, ints(X, 2)).arr("v", v).emit(); }
  { const IV q = rp(R, 0, 3); DV X = coords(FR[0], P); Rotate_Points3(X, q[0] * M_PI / 2, q[1] * M_PI / 2, q[2] * M_PI / 2); pts("Turn", P, ints(X, 3)).arr("n", q).emit(); FV Y = flt(coords(FR[0], P)); Rotate_Points3(Y, (float) (q[0] * M_PI / 2), (float) (q[1] * M_PI / 2), (float) (q[2] * M_PI / 2)); pts("Turn", P, ints(Y, 3)).arr("n", q).emit(); }
  { bool one = true; for (auto &p : P) if (p != P[0]) one = false; const int L = R.range(1, 4);
    if (!one) { const Frame &f = FR[R(4)]; DV X = coords(f, P); Normalize_Points3(X, (double) L); pts("Norm", P, fracs(X, 3)).kv("s", L).emit(); FV Y = flt(coords(f, P)); Normalize_Points3(Y, (float) L); pts("Norm", P, fracs(DV(Y.begin(), Y.end()), 3)).kv("s", L).emit(); } }
  { const int d = R.range(2, 3); IM q; for (auto &p : P) { IV u(p.begin(), p.begin() + d); bool z = true; for (long x : u) if (x) z = false; if (!z) q.push_back(u); }
    if (!q.empty()) { DV X = coords(FR[0], q, d); NormalizeVector_Points(X.data(), (unsigned) q.size(), d); pts("Unit", q, fracs(X, d)).emit(); FV Y = flt(coords(FR[0], q, d)); NormalizeVector_Points(Y.data(), (unsigned) q.size(), d); pts("Unit", q, fracs(DV(Y.begin(), Y.end()), d)).emit(); } }
  { static const long UN[][4] = {{1, 0, 0, 1}, {0, -1, 0, 1}, {0, 0, 1, 1}, {1, 2, 2, 3}, {-2, 3, 6, 7}, {4, -4, 7, 9}, {3, 0, -4, 5}};
    IM q, nn; IV nd2; DV X, N; for (auto &p : P) { const long *u = UN[R(7)]; const IV m = {u[0], u[1], u[2]}; if (sq(crs(p, m)) == 0) continue; q.push_back(p); nn.push_back(m); nd2.push_back(u[3]); for (int k = 0; k < 3; ++k) { X.push_back((double) p[k]); N.push_back((double) m[k] / (double) u[3]); } }
    if (!q.empty()) { TangentVector_Points3(X, N); pts("Tang", q, fracs(X, 3)).arr2("n", nn).arr("nd", nd2).emit(); } }
  { const IV a = rp(R, -5, 0), b = {a[0] + R(5), a[1] + R(5), a[2] + R(5)}; double lo[3], hi[3]; for (int i = 0; i < 3; ++i) { lo[i] = (double) a[i]; hi[i] = (double) b[i]; } DV X(20 * nd); Points_RandomUniform(X.data(), 20, nd, lo, hi); J("Within").arr2("r", fracs(X, nd)).arr("lo", IV(a.begin(), a.begin() + nd)).arr("hi", IV(b.begin(), b.begin() + nd)).emit(); }
}
static V3 v3(const IV &p) { return V3((double) p[0], (double) p[1], (double) p[2]); }
static void lines(Rng &R) {
  IM P, N; const int n = R.range(1, 5);
  for (int i = 0; i < n; ++i) for (;;) { IV a = rp(R, -3, 4), b = rp(R, -3, 4); if (i && R(2)) a = P[R((int) P.size())]; if (root(sq(sub(a, b))) <= 0) continue; auto at = [&](const IV &p) { size_t k = 0; while (k < P.size() && P[k] != p) ++k; if (k == P.size()) P.push_back(p); return (long) k; }; const long x = at(a), y = at(b); N.push_back({x, y}); break; }
  mesh(P, {}, {}, N); const UV l = flatten(N); const Frame &f = FR[R(4)];
  { const DV X = coords(f, P); double v = 3, c[3] = {1, 1, 1}; CG_MeshLine3(v, c, X, l); J("CgLine").kv("v", fx(v / f.s)).arr("x", unit(f, c)).emit(); }
  { const FV X = flt(coords(FR[1], P)); float v = 3, c[3] = {1, 1, 1}; CG_MeshLine3(v, c, X, l); J("CgLine").kv("v", fx(v / FR[1].s)).arr("x", unit(FR[1], c)).emit(); }
  for (auto &e : N) { const auto I = Mat3_IrotLineSeg(v3(P[e[0]]), v3(P[e[1]])); J("Inert").ks("k", "line").arr2("q", IM{P[e[0]], P[e[1]]}).arr("x", fxv(I.data(), 9)).emit(); }
  for (auto &p : P) { const auto I = Mat3_IrotPoint<V3, double>(v3(p)); J("Inert").ks("k", "point").arr2("q", IM{p}).arr("x", fxv(I.data(), 9)).emit(); }
  for (int i = 0; i < 3; ++i) { IM Q; const IV t = nice(R, Q); IM q = {Q[t[0]], Q[t[1]], Q[t[2]]}; { const auto I = Mat3_IrotTri(v3(q[0]), v3(q[1]), v3(q[2])); J("Inert").ks("k", "tri").arr2("q", q).arr("x", fxv(I.data(), 9)).emit(); }
    q = {rp(R, -2, 3), rp(R, -2, 3), rp(R, -2, 3)}; const auto I = Mat3_IrotTriSolid(v3(q[0]), v3(q[1]), v3(q[2])); J("Inert").ks("k", "cone").arr2("q", q).arr("x", fxv(I.data(), 9)).emit(); }
}
static void flats(Rng &R) {
  { // a grid of cells cut at random, some cells missing, points renamed
    const int nx = R.range(1, 2), ny = R.range(1, 2); IM P, T, none; for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) P.push_back({2 * i, j, 0});
    if (R(2)) for (auto &p : P) p[0] += p[1];
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { const long a = j * (nx + 1) + i, b = a + 1, c = b + nx + 1, d = c - 1; if (R(2)) { T.push_back({a, b, c}); T.push_back({c, d, a}); } else { T.push_back({b, c, d}); T.push_back({a, b, d}); } if (R(6) == 0 && T.size() > 2) T.pop_back(); }
    rename(R, P, T, none, R(2)); for (auto &p : P) p = {p[0], p[1]}; for (auto &t : T) std::rotate(t.begin(), t.begin() + R(3), t.end());
    mesh(P, T); const DV X = coords(FR[0], P, 2); const UV t = flatten(T);
    { DV m(P.size(), 5.); const int rho = R.range(1, 3); const Frame &f = FR[R(4)]; const DV Y = coords(f, P, 2); MassPoint_Tri2D(m.data(), rho, Y.data(), P.size(), t.data(), T.size()); for (auto &x : m) x /= f.s * f.s; J("MassTri").kv("rho", rho).kv("flat", 1).arr("m", fxv(m.data(), (int) m.size())).emit(); }
    { DV Y(2); UV k(3); const int nl = R.range(1, 2), h = R.range(1, 2); ExtrudeTri2Tet(nl, h, Y, k, X, t); IM K; for (size_t i = 0; i + 4 <= k.size(); i += 4) K.push_back({(long) k[i], (long) k[i + 1], (long) k[i + 2], (long) k[i + 3]}); J("Thick").kv("n", nl).kv("h", h).arr2("p", ints(Y, 3)).arr2("k", K).emit(); }
    IM P1, P0; for (auto &p : P) P0.push_back(p); for (int nd = 2; nd <= 3; ++nd) { IM Q = P0; if (nd == 3) for (auto &p : Q) p.push_back(R(9)); UV e = t; if (R(2)) e.resize(R((int) e.size()) + 1); DV Y(5); UV k(2); std::vector<int> mp(2, 7); RemoveUnreferencedPoints_MeshElem(Y, k, mp, nd, coords(FR[0], Q, nd), e); J("Unref").arr2("p0", Q).arr("t0", e).arr("map", mp).arr2("p1", ints(Y, nd)).arr("t1", k).emit(); }
  }
  { IM A, B; UV ta, tb; const int na = R(4), nb = R(4); for (int i = 0; i < na; ++i) A.push_back(rp(R, 0, 9)); for (int i = 0; i < nb; ++i) B.push_back(rp(R, 0, 9)); for (int i = 0; i < 3 * R(3) && na; ++i) ta.push_back(R(na)); for (int i = 0; i < 6 && nb; ++i) tb.push_back(R(nb)); DV X = coords(FR[0], A); UV t = ta; AddMesh(X, t, coords(FR[0], B), tb); J("Join").arr2("p1", A).arr2("p2", B).arr("t1", ta).arr("t2", tb).arr2("p", ints(X, 3)).arr("t", t).emit(); }
  { // right triangles with edges of integer length
    static const int PY[][2] = {{3, 4}, {4, 3}, {5, 12}, {8, 6}, {8, 15}}; IM P, T; const int n = R.range(1, 4); for (int i = 0; i < n; ++i) { const int *q = PY[R(5)], x = R(5), y = R(5), s = R(2) ? 1 : -1; const long b = (long) P.size(); P.push_back({x, y}); P.push_back({x + s * q[0], y}); P.push_back({x, y + s * q[1]}); T.push_back({b, b + 1, b + 2}); std::rotate(T.back().begin(), T.back().begin() + R(3), T.back().end()); }
    mesh(P, T); const Frame &f = FR[R(3)]; double a = -1, m = -1; const DV X = coords(f, P, 2); const UV t = flatten(T); Quality_MeshTri2D(a, m, X.data(), t.data(), n); J("Qual").kv("a2", RX(2 * m / (f.s * f.s), 1, 1e-6)).kv("r", fx(a)).emit(); }
  for (int i = 0; i < 3; ++i) { IM Q; const IV t = nice(R, Q); IM p = {Q[t[0]], Q[t[1]], Q[t[2]]}, q = {rp(R, 0, 3, 2), rp(R, 0, 3, 2), rp(R, 0, 3, 2)}; if (R(2)) for (int k = 0; k < 3; ++k) q[k] = {p[k][0], p[k][1]};
    const long a2 = (q[1][0] - q[0][0]) * (q[2][1] - q[0][1]) - (q[2][0] - q[0][0]) * (q[1][1] - q[0][1]); if (a2 == 0) continue; const int ta = R.range(8, 16), te = R.range(8, 16); const UV tt = {0, 1, 2};
    J("Dist").arr2("p", p).arr2("q", q).kv("ta", ta).kv("te", te).kv("r", Distortion_MappingTriangleFrom2To3Dim(ta / 8., te / 8., 0, tt, coords(FR[0], p), coords(FR[0], q, 2))).emit(); }
  { const int nx = R.range(2, 4), ny = R.range(2, 4); FV H; IV h; for (int i = 0; i < nx * ny; ++i) { h.push_back(R(7)); H.push_back((float) h.back()); } for (int i = 0; i < 4; ++i) { const int x = R(nx - 1), y = R(ny - 1), t = (y * nx + x) * 2 + R(2), w0 = R(9), w1 = R(9 - w0), el = R.range(1, 3); const auto p = PointOnSurfaceMesh<double>(t, w0 / 8., w1 / 8.).PositionOnGrid2(nx, ny, el, H); J("OnGrid").kv("nx", nx).kv("t", t).kv("el", el).arr("h", h).arr("w", IV{w0, w1}).arr("x8", IV{EX(p[0], 8), EX(p[1], 8), EX(p[2], 8)}).emit(); } }
}
// the surface of a box, its faces cut into unit squares and these into triangles
static void boxes(Rng &R) {
  const IV b = {R.range(1, 2), R.range(1, 2), R.range(1, 2)}; IM P, T, K;
  auto at = [&](const IV &p) { size_t k = 0; while (k < P.size() && P[k] != p) ++k; if (k == P.size()) P.push_back(p); return (long) k; };
  for (int a = 0; a < 3; ++a) for (int s = 0; s < 2; ++s) { const int c = (a + 1) % 3, d = (a + 2) % 3; for (long i = 0; i < b[c]; ++i) for (long j = 0; j < b[d]; ++j) { IV q; for (int k = 0; k < 4; ++k) { IV p(3); p[a] = s ? b[a] : 0; const int kk = s ? k : 3 - k; p[c] = i + (kk == 1 || kk == 2); p[d] = j + (kk >= 2); q.push_back(at(p)); } const int r = R(2); T.push_back({q[r], q[r + 1], q[r + 2]}); T.push_back({q[r], q[r + 2], q[(r + 3) % 4]}); } }
  rename(R, P, T, K, R(2)); mesh(P, T); const Frame &f = FR[R(4)]; const DV X = coords(f, P); const UV t = flatten(T);
  DV n(P.size() * 3); Normal_MeshTri3D(n.data(), X.data(), P.size(), t.data(), T.size());
  std::vector<int> ind(1, 0), el; for (size_t p = 0; p < P.size(); ++p) { for (size_t i = 0; i < T.size(); ++i) for (long v : T[i]) if (v == (long) p) el.push_back((int) i); ind.push_back((int) el.size()); if (ind[p] == ind[p + 1]) n[p * 3] = n[p * 3 + 1] = n[p * 3 + 2] = 0; }
  DV s; makeSolidAngle(s, X, t, n, ind, el); IV r; for (double x : s) r.push_back(x == -1 ? -1 : (std::fabs(x) < 100 ? (long) std::rint(x / (M_PI / 2) * 1000) : BAD)); J("Solid").arr("b", b).arr("r", r).emit();
}
int main(int argc, char **argv) {
  init(argc, argv);
  size_t ci = 0;
  const auto L = read_lines(input_path);
  for (size_t i0 = 0; i0 < L.size(); i0 += 8, ++ci) run_case([&]() {
    J("Start").emit();
    Rng R(seed * 7919 + ci * 31 + 5);
    for (size_t i = i0; i < std::min(L.size(), i0 + 8); ++i) {
      const auto &b = L[i]; const long np = b[0], nk = b[1]; IM P, K, T; size_t c = 2;
      for (long k = 0; k < np; ++k, c += 3) P.push_back({b[c], b[c + 1], b[c + 2]});
      for (long k = 0; k < nk; ++k, c += 4) K.push_back({b[c], b[c + 1], b[c + 2], b[c + 3]});
      IM all; for (auto &k : K) for (auto &fc : FACE) all.push_back({k[fc[0]], k[fc[1]], k[fc[2]]});
      auto rot = [](IV f) { std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end()); return f; };
      for (auto &x : all) { bool in = false; for (auto &y : all) if (rot({y[0], y[2], y[1]}) == rot(x)) in = true; if (!in) T.push_back(x); }
      rename(R, P, T, K, R(3)); shuffle(R, T); shuffle(R, K);
      solids(R, P, T, K);
    }
  });
  const int n = thorough ? 260 : 60;
  for (int it = 0; it < n; ++it) {
    run_case([&]() { J("Start").emit(); Rng R(seed * 104729 + it * 13 + 1); for (int r = 0; r < 2; ++r) { IM P, T, K; if (R(2)) { IM Q; voxels(R, P, Q); for (auto &q : Q) { const int a = R(2); T.push_back({q[a], q[a + 1], q[a + 2]}); T.push_back({q[a], q[a + 2], q[(a + 3) % 4]}); } } else { const int m = R.range(1, 6); for (int i = 0; i < m; ++i) T.push_back(nice(R, P)); } rename(R, P, T, K, R(2)); shells(R, P, T); } });
    run_case([&]() { J("Start").emit(); Rng R(seed * 1299709 + it * 13 + 2); for (int r = 0; r < 6; ++r) { bounds(R); affine(R); } for (int r = 0; r < 3; ++r) lines(R); });
    run_case([&]() { J("Start").emit(); Rng R(seed * 15485863 + it * 13 + 3); for (int r = 0; r < 2; ++r) flats(R); boxes(R);
      IM P, Q, K; voxels(R, P, Q); rename(R, P, Q, K, R(2)); mesh(P, Q); DV N(1); Normal_MeshQuad3(N, coords(FR[R(4)], P), flatten(Q)); J("NormsQ").arr2("r", fracs(N, 3)).emit(); FV Nf; Normal_MeshQuad3(Nf, flt(coords(FR[1], P)), flatten(Q)); J("NormsQ").arr2("r", fracs(DV(Nf.begin(), Nf.end()), 3)).emit(); });
  }
  return 0;
}
