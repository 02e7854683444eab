// C11: bounding-volume hierarchies
#include "vh.h"
#include <map>
#include <set>
#include <algorithm>
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/srch_selfintersection_bvh.h"
using namespace delfem2; using namespace vh;
typedef std::array<int, 3> I3; typedef std::vector<unsigned> VU; typedef CBV3_AABB<double> BX; typedef CBV3_Sphere<double> SP; typedef CBV3_Sphere<float> SF;
static std::vector<I3> P; // integer positions
static std::vector<VU> E;
static void objs(int m2) { J("Objs").arr2("x", P).arr2("el", E).kv("m2", m2).emit(); }
static void tree(const std::vector<CNodeBVH2> &N) { std::vector<std::vector<unsigned>> t; for (auto &n : N) t.push_back({n.iparent, n.ichild[0], n.ichild[1]}); J("Tree").arr2("nodes", t).emit(); }
static void vol(const std::vector<BX> &B) { std::vector<std::vector<long>> v; for (auto &b : B) { v.emplace_back(); for (int d = 0; d < 3; ++d) { v.back().push_back(b.IsActive() ? RX(b.bbmin[d], 2, 1e-5) : BAD); v.back().push_back(b.IsActive() ? RX(b.bbmax[d], 2, 1e-5) : BAD); } } J("Aabb").arr2("vol", v).emit(); }
static long K50(double v) { return RX(v, 50, 0.51); }
template<class R> static void vol(const std::vector<CBV3_Sphere<R>> &B) { std::vector<std::vector<long>> v; for (auto &b : B) v.push_back({K50(b.r), K50(b.c[0]), K50(b.c[1]), K50(b.c[2])}); J("Sph").arr2("vol", v).emit(); }
template<class R> static std::vector<R> xyz() { std::vector<R> x; for (auto &p : P) for (int c : p) x.push_back((R) c); return x; }
static VU tri() { VU t; for (auto &e : E) for (auto i : e) t.push_back(i); return t; }
static I3 q3(Rng &r, int a, int b) { return {r.range(a, b), r.range(a, b), r.range(a, b)}; }
static I3 dir(Rng &r) { I3 d; do d = q3(r, -2, 2); while (!d[0] && !d[1] && !d[2]); return d; }
static VU lst(Rng &r) { return VU(); }
static void searchBox(Rng &r, const std::vector<CNodeBVH2> &N, const std::vector<BX> &B, int mx, int nq) {
  for (int i = 0; i < nq; ++i) { I3 q = i % 3 ? P[r(P.size())] : q3(r, -1, mx + 1); double p[3] = {(double) q[0], (double) q[1], (double) q[2]}; VU l = lst(r);
    BVH_GetIndElem_Predicate(l, CIsBV_IncludePoint<BX>(p), 0, N, B); J("IncBox").arr("q", q).arr("list", l).emit(); } }
static void searchSph(Rng &r, const std::vector<CNodeBVH2> &N, const std::vector<SP> &B, int mx, int nq) {
  for (int i = 0; i < nq; ++i) { I3 q = r(2) ? P[r(P.size())] : q3(r, -1, mx + 1), d = dir(r); double p[3] = {(double) q[0], (double) q[1], (double) q[2]}, g[3] = {(double) d[0], (double) d[1], (double) d[2]};
    { VU l; BVH_GetIndElem_Predicate(l, CIsBV_IncludePoint<SP>(p), 0, N, B); J("IncSph").arr("q", q).arr("list", l).emit(); }
    { VU l; BVH_GetIndElem_Predicate(l, CIsBV_IntersectLine<SP, double>(p, g), 0, N, B); J("Line").arr("q", q).arr("d", d).arr("list", l).emit(); }
    { VU l; BVH_GetIndElem_Predicate(l, CIsBV_IntersectRay<SP>(p, g), 0, N, B); J("Ray").arr("q", q).arr("d", d).arr("list", l).emit(); }
    int a = r(6), b = a + r(7); VU l; BVH_GetIndElem_Predicate(l, CIsBV_InsideRange<SP>(p, a / 2., b / 2.), 0, N, B); J("RangeV").arr("q", q).kv("a", a).kv("b", b).arr("list", l).emit(); } }
template<class R> static void searchPts(Rng &r, const std::vector<CNodeBVH2> &N, const std::vector<CBV3_Sphere<R>> &B, int mx, int nq) {
  for (int i = 0; i < nq; ++i) { I3 q = r(3) ? q3(r, -1, mx + 1) : P[r(P.size())]; R p[3] = {(R) q[0], (R) q[1], (R) q[2]};
    unsigned ip = 12345; R d = -1 - r(2); BVH_IndPoint_NearestPoint(ip, d, p, 0, N, B); J("Near").arr("q", q).kv("ip", ip).kv("d2", RX((double) d * d, 1, 1e-4)).emit(); } }
static void rangePts(Rng &r, const std::vector<CNodeBVH2> &N, const std::vector<SP> &B, int mx, int nq) {
  for (int i = 0; i < nq; ++i) { I3 q = q3(r, -1, mx + 1); double p[3] = {(double) q[0], (double) q[1], (double) q[2]};
    int a = 2 * r(5) + 1, b = a + 2 * r(5); if (r(4) == 0) a = -1; VU l; BVH_GetIndElem_Predicate(l, CIsBV_InsideRange<SP>(p, a / 2., b / 2.), 0, N, B); J("Range").arr("q", q).kv("a", a).kv("b", b).arr("list", l).emit();
    double mn = +1 + r(3), mx2 = -1; BVH_Range_DistToNearestPoint(mn, mx2, p, 0, N, B); J("NearR").arr("q", q).kv("lo", RX(mn * mn, 1, 1e-4)).kv("hi", RX(mx2 * mx2, 1, 1e-4)).emit(); } }
template<class R> static void morton(std::vector<CNodeBVH2> &N, Rng &r) {
  std::vector<R> X = xyz<R>(); R lo[3], hi[3]; int l[3], h[3];
  for (int d = 0; d < 3; ++d) { l[d] = 99; h[d] = -99; for (auto &p : P) { l[d] = std::min(l[d], p[d]); h[d] = std::max(h[d], p[d]); } l[d] -= r(3); h[d] += 1 + r(3); if (h[d] - l[d] > 1 && r(2)) --h[d]; lo[d] = l[d]; hi[d] = h[d]; }
  VU id; std::vector<std::uint32_t> mc; if (r(2)) { id.assign(5, 9u); mc.assign(3, 77u); }
  SortedMortenCode_Points3(id, mc, X, lo, hi); J("Morton").arr("ids", id).raw("codes", [&] { std::string t = "["; for (size_t i = 0; i < mc.size(); ++i) t += (i ? "," : "") + std::to_string(mc[i] > 2000000000u ? 2000000000u : mc[i]); return t + "]"; }()).ptr("lo", l, 3).ptr("hi", h, 3).emit();
  BVHTopology_Morton(N, id, mc); tree(N); }
static void pts_(Rng &r, int mx) {
  E.clear(); for (unsigned i = 0; i < P.size(); ++i) E.push_back({i}); objs(0);
  std::vector<CNodeBVH2> N; if (r(2)) { N.resize(3); for (auto &n : N) n = {4, {1, 2}}; }
  if (r(2)) morton<double>(N, r); else morton<float>(N, r);
  std::vector<BX> B; std::vector<SP> S; std::vector<SF> F;
  for (int round = 0; round < 2 + r(2); ++round) {
    if (round) { for (auto &p : P) if (r(2)) p = q3(r, 0, mx); objs(0); }
    std::vector<double> X = xyz<double>(); std::vector<float> Xf = xyz<float>(); size_t n = P.size();
    BVH_BuildBVHGeometry(B, 0, N, CLeafVolumeMaker_Point<BX, double>(X.data(), n)); vol(B); searchBox(r, N, B, mx, 2);
    BVH_BuildBVHGeometry(S, 0, N, CLeafVolumeMaker_Point<SP, double>(X.data(), n)); vol(S); searchPts(r, N, S, mx, 3); rangePts(r, N, S, mx, 2); searchSph(r, N, S, mx, 1);
    BVH_BuildBVHGeometry(F, 0, N, CLeafVolumeMaker_Point<SF, float>(Xf.data(), n)); vol(F); searchPts(r, N, F, mx, 2); } }
static bool flat(const VU &e) { long a[3], b[3]; for (int d = 0; d < 3; ++d) { a[d] = P[e[1]][d] - P[e[0]][d]; b[d] = P[e[2]][d] - P[e[0]][d]; }
  return a[1] * b[2] == a[2] * b[1] && a[2] * b[0] == a[0] * b[2] && a[0] * b[1] == a[1] * b[0]; }
static VU pick3(Rng &r, unsigned n) { VU e(3); do { for (auto &i : e) i = r(n); } while (e[0] == e[1] || e[1] == e[2] || e[0] == e[2]); return e; }
// kinds: 0 soup over few vertices, 1 height field, 2 separate triangles, 3 several triangles about one centre, 4 one triangle, 5 closed box-like surface
static void mesh(Rng &r, int kind, int mx) {
  P.clear(); E.clear();
  if (kind == 1) { int w = 2 + r(2), h = 2 + r(2); if (w == 3 && h == 3 && !thorough) h = 2; for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) P.push_back({i, r(2) ? 0 : r(mx), j});
    int ax = r(3); for (auto &p : P) std::swap(p[1], p[ax]);
    for (unsigned j = 0; j + 1 < (unsigned) h; ++j) for (unsigned i = 0; i + 1 < (unsigned) w; ++i) { unsigned a = j * w + i, b = a + 1, c = a + w, d = c + 1; E.push_back({a, b, d}); E.push_back({a, d, c}); } }
  else if (kind == 3) { int n = 2 + r(3); for (int i = 0; i < n; ++i) { unsigned b = P.size(); I3 p, q, s; do { p = q3(r, 0, 3); q = q3(r, 0, 3); for (int d = 0; d < 3; ++d) s[d] = 3 - p[d] - q[d] + (d == 0 ? 0 : 0); P.resize(b); P.push_back(p); P.push_back(q); P.push_back(s); } while (flat({b, b + 1, b + 2}) || s[0] < 0 || s[1] < 0 || s[2] < 0); E.push_back({b, b + 1, b + 2}); }
    if (r(2)) { unsigned b = P.size(); do { P.resize(b); for (int i = 0; i < 3; ++i) P.push_back(q3(r, 0, 3)); } while (flat({b, b + 1, b + 2})); E.insert(E.begin() + r(E.size()), VU{b, b + 1, b + 2}); } }
  else if (kind == 4) { do { P.clear(); for (int i = 0; i < 3; ++i) P.push_back(q3(r, 0, mx)); } while (flat({0, 1, 2})); E.push_back({0, 1, 2}); }
  else if (kind == 5) { static const int T[4][3] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}; do { P.clear(); for (int i = 0; i < 4; ++i) P.push_back(q3(r, 0, mx)); } while (flat({0, 2, 1}) || flat({0, 1, 3}) || flat({1, 2, 3}) || flat({0, 3, 2}));
    for (auto &t : T) E.push_back({(unsigned) t[0], (unsigned) t[1], (unsigned) t[2]}); }
  else { int n = 2 + r(thorough ? 7 : 5); int nv = kind == 2 ? 3 * n : 4 + r(3);
    bool ok; do { P.clear(); for (int i = 0; i < nv; ++i) P.push_back(q3(r, 0, mx)); ok = kind == 2; if (ok) break; int good = 0; for (unsigned a = 0; a < (unsigned) nv; ++a) for (unsigned b = a + 1; b < (unsigned) nv; ++b) for (unsigned c = b + 1; c < (unsigned) nv; ++c) good += !flat({a, b, c}); ok = good > 0; } while (!ok);
    for (int i = 0; i < n; ++i) { VU e; do { e = kind == 2 ? VU{3u * i, 3u * i + 1, 3u * i + 2} : pick3(r, nv); if (kind == 2 && flat(e)) for (auto k : e) P[k] = q3(r, 0, mx); } while (flat(e)); E.push_back(e); } } }
static void move(Rng &r, int mx) { for (int t = 0; t < 20; ++t) { auto Q = P; for (auto &p : P) if (r(2)) p = q3(r, 0, mx); bool ok = true; for (auto &e : E) if (flat(e)) ok = false; if (ok) return; P = Q; } }
static void near(Rng &r, CBVH_MeshTri3D<SP, double> &b, int mx, int nq, int m2) {
  std::vector<double> X = xyz<double>(); VU T = tri(); size_t n = P.size(), m = E.size();
  for (int i = 0; i < nq; ++i) { I3 q = q3(r, -1, mx + 1); CVec3d p(q[0], q[1], q[2]);
    { PointOnSurfaceMesh<double> s = b.NearestPoint_Global(p, X, T); double d = -1; if (s.itri < m) d = (CVec3d(s.PositionOnMeshTri3(X, T).data()) - p).squaredNorm(); J("NearTri").arr("q", q).kv("tri", s.itri).kv("d2k", std::lrint(d * 1000)).emit(); }
    { PointOnSurfaceMesh<double> s; s.itri = 0; int rad = r(5); double g = b.Nearest_Point_IncludedInBVH(s, p, rad / 2., X.data(), n, T.data(), m); bool hit = s.itri != UINT_MAX; double d = g; if (hit && s.itri < m) { d = (CVec3d(s.PositionOnMeshTri3(X, T).data()) - p).norm(); if (std::fabs(d - g) > 1e-6) d = 1e4; }
      J("IncTri").arr("q", q).kv("tri", s.itri).kv("d2k", hit ? std::lrint(d * d * 1000) : 0).kv("rad", rad).kv("gap", hit ? 0 : std::lrint(g * 50)).emit(); } }
}
template<class B> static void hits(Rng &r, const std::vector<CNodeBVH2> &N, const std::vector<B> &V, int mx, int nq) {
  std::vector<double> X = xyz<double>(); VU T = tri();
  for (int i = 0; i < nq; ++i) { I3 q = q3(r, -1, mx + 1), d; VU &e = E[r(E.size())]; for (int k = 0; k < 3; ++k) d[k] = P[e[0]][k] + P[e[1]][k] + P[e[2]][k] - 3 * q[k]; if (r(3) == 0 || (!d[0] && !d[1] && !d[2])) d = dir(r);
    PointOnSurfaceMesh<double> s; s.itri = 7777; bool h = Intersection_Ray3_Tri3_Bvh(s, CVec3d(q[0], q[1], q[2]), CVec3d(d[0], d[1], d[2]), X, T, N, V);
    J("Hit").arr("q", q).arr("d", d).kv("tri", h ? (int) s.itri : -1).emit(); } }
static void tris(Rng &r, int kind, int mx) {
  mesh(r, kind, mx); CBVH_MeshTri3D<SP, double> S; CBVH_MeshTri3D<BX, double> B; std::vector<CNodeBVH2> M; std::vector<SP> MS; std::vector<BX> MB;
  for (int round = 0; round < 2; ++round) { if (round) move(r, mx);
    int m2 = r(3); objs(m2); std::vector<double> X = xyz<double>(); VU T = tri(); size_t n = P.size(), m = E.size();
    if (round == 0) { S.Init(X.data(), n, T.data(), m, m2 / 2.); B.Init(X.data(), n, T.data(), m, m2 / 2.); } else { S.UpdateGeometry(X.data(), n, T.data(), m, m2 / 2.); B.UpdateGeometry(X.data(), n, T.data(), m, m2 / 2.); }
    tree(B.aNodeBVH); vol(B.aBB_BVH); searchBox(r, B.aNodeBVH, B.aBB_BVH, mx, 2);
    tree(S.aNodeBVH); vol(S.aBB_BVH); searchSph(r, S.aNodeBVH, S.aBB_BVH, mx, 2); near(r, S, mx, 3, m2); hits(r, S.aNodeBVH, S.aBB_BVH, mx, 2);
    objs(0);
    if (r(2)) { ConstructBVHTriangleMeshMortonCode(M, MS, X, T); tree(M); vol(MS); searchSph(r, M, MS, mx, 1); } else { BuildBVH_MeshTri3D_Morton(M, MS, X, T); tree(M); vol(MS); searchSph(r, M, MS, mx, 1); }
    hits(r, M, MS, mx, 2);
    if (r(2)) { BuildBVH_MeshTri3D_Morton(M, MB, X, T); tree(M); vol(MB); searchBox(r, M, MB, mx, 1); } } }
static std::vector<std::array<int, 5>> dump(const std::set<CContactElement> &s) { std::vector<std::array<int, 5>> v; for (auto &c : s) v.push_back({c.is_fv ? 1 : 0, c.ino0, c.ino1, c.ino2, c.ino3}); return v; }
template<class BV> static void self(Rng &r, CBVH_MeshTri3D<BV, double> &b, int m2) {
  std::vector<double> X = xyz<double>(); VU T = tri();
  { std::vector<CIntersectTriPair<double>> l; GetIntersectTriPairs(l, X, T, b.iroot_bvh, b.aNodeBVH, b.aBB_BVH); std::vector<std::array<int, 2>> g; for (auto &p : l) g.push_back({p.itri, p.jtri}); J("Pairs").arr2("pairs", g).emit(); }
  for (int dl = m2; dl >= 1; dl -= 2) { std::set<CContactElement> s; GetContactElement_Proximity(s, dl / 2., X, T, b.iroot_bvh, b.aNodeBVH, b.aBB_BVH); J("Prox").kv("dl", dl).arr2("got", dump(s)).emit(); } }
struct NoCull { void AddPoint(const double *, double) {} bool IsIntersect(const NoCull &) const { return true; } bool isInclude_Point(double, double, double) const { return true; } };
template<class BV> static void ccd(Rng &r) {
  int k = r(3); mesh(r, k == 0 ? 0 : k == 1 ? 2 : 1, 3); std::vector<double> X = xyz<double>(), U; VU T = tri(); size_t n = P.size(), m = E.size();
  for (auto &x : X) x += (r(2001) - 1000) / 3517.; for (size_t i = 0; i < X.size(); ++i) U.push_back((r(4001) - 2000) / 1173.);
  CBVH_MeshTri3D<BV, double> b; b.Init(X.data(), n, T.data(), m, 0); double dt = 0.5 + r(3) * 0.25; 
  BVH_BuildBVHGeometry(b.aBB_BVH, b.iroot_bvh, b.aNodeBVH, CLeafVolumeMaker_DynamicTriangle<BV, double>(dt, X, U, T, 1e-6));
  std::set<CContactElement> s, may, must; GetContactElement_CCD(s, dt, 1e-6, X, U, T, b.iroot_bvh, b.aNodeBVH, b.aBB_BVH);
  auto ps = [&](int i) { return CVec3d(X[i * 3], X[i * 3 + 1], X[i * 3 + 2]); }; auto pe = [&](int i) { return CVec3d(X[i * 3] + dt * U[i * 3], X[i * 3 + 1] + dt * U[i * 3 + 1], X[i * 3 + 2] + dt * U[i * 3 + 2]); };
  NoCull nc;
  for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) if (i != j) { const VU &a = E[i], &c = E[j];
    for (int v = 0; v < 3; ++v) { int x = a[0], y = a[1], z = a[2], w = c[v]; if (IsContact_FV_CCD(x, y, z, w, ps(x), ps(y), ps(z), ps(w), pe(x), pe(y), pe(z), pe(w), nc)) { CContactElement e(true, x, y, z, w); may.insert(e); must.insert(e); } }
    if (i < j) for (int u = 0; u < 3; ++u) for (int v = 0; v < 3; ++v) { int x = a[u], y = a[(u + 1) % 3], z = c[v], w = c[(v + 1) % 3]; int cnt = 0; if (x == z || x == w || y == z || y == w) continue;
      for (int o = 0; o < 8; ++o) { int x1 = x, y1 = y, z1 = z, w1 = w; if (o & 1) std::swap(x1, y1); if (o & 2) std::swap(z1, w1); if (o & 4) { std::swap(x1, z1); std::swap(y1, w1); }
        cnt += IsContact_EE_CCD<NoCull>(x1, y1, z1, w1, ps(x1), ps(y1), ps(z1), ps(w1), pe(x1), pe(y1), pe(z1), pe(w1)); }
      CContactElement e(false, x, y, z, w); if (cnt) may.insert(e); if (cnt == 8) must.insert(e); } }
  E.clear(); P.clear(); J("Ccd").arr2("got", dump(s)).arr2("must", dump(must)).arr2("may", dump(may)).emit(); }
// volumes of triangles that move: each holds the triangle before and after the step
template<class BV> static void moving(Rng &r) {
  mesh(r, r(3), 3); int m2 = 1 + r(3); size_t n = P.size(), m = E.size(); VU T = tri(); std::vector<double> X = xyz<double>(), U(3 * n); std::vector<I3> S = P; std::vector<VU> Q = E;
  CBVH_MeshTri3D<BV, double> b; b.Init(X.data(), n, T.data(), m, 0);
  for (int round = 0; round < 2; ++round) { P = S; E = Q; double dt = 1. / (1 << r(3));
    for (size_t i = 0; i < n; ++i) { I3 w = r(3) ? q3(r, -2, 2) : I3{0, 0, 0}; for (int d = 0; d < 3; ++d) { U[i * 3 + d] = w[d] / dt; w[d] += S[i][d]; } P.push_back(w); }
    for (auto &e : E) for (int k = 0; k < 3; ++k) e.push_back(e[k] + n);
    BVH_BuildBVHGeometry(b.aBB_BVH, b.iroot_bvh, b.aNodeBVH, CLeafVolumeMaker_DynamicTriangle<BV, double>(dt, X, U, T, m2 / 2.));
    objs(m2); tree(b.aNodeBVH); vol(b.aBB_BVH);
    if constexpr (std::is_same<BV, BX>::value) searchBox(r, b.aNodeBVH, b.aBB_BVH, 3, 2); else searchSph(r, b.aNodeBVH, b.aBB_BVH, 3, 1); } }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  for (auto &v : read_lines(input_path)) run_case([&] { Rng r(seed * 131 + cur_case); P.clear(); int s[3] = {1 + r(2), 1 + r(2), 1 + r(2)}, o[3] = {r(3), r(3), r(3)}; if (r(3) == 0) s[r(3)] = 0;
    for (long c : v) P.push_back({(int) (c & 1) * s[0] + o[0], (int) ((c >> 1) & 1) * s[1] + o[1], (int) ((c >> 2) & 1) * s[2] + o[2]});
    for (size_t i = P.size(); i-- > 1;) std::swap(P[i], P[r(i + 1)]); pts_(r, 4); });
  int nr = thorough ? 900 : 120;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 977 + cur_case); P.clear(); int n = 1 + r(thorough ? 24 : 12), mx = 1 + r(5); for (int k = 0; k < n; ++k) P.push_back(r(6) == 0 && k ? P[r(k)] : q3(r, 0, mx)); pts_(r, mx); });
  nr = thorough ? 2400 : 360;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 733 + cur_case); tris(r, i % 6, 3); });
  nr = thorough ? 2400 : 320;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 517 + cur_case); mesh(r, i % 4 == 1 ? 1 : i % 4 == 3 ? 0 : 2, 5); int m2 = 1 + r(4);
    if (i % 2 == 0) { CBVH_MeshTri3D<BX, double> b; for (int round = 0; round < 2; ++round) { if (round) move(r, 5); auto X = xyz<double>(); auto T = tri(); objs(m2); if (!round) { b.Init(X.data(), P.size(), T.data(), E.size(), m2 / 2.); } else b.UpdateGeometry(X.data(), P.size(), T.data(), E.size(), m2 / 2.); tree(b.aNodeBVH); vol(b.aBB_BVH); self(r, b, m2); } }
    else { CBVH_MeshTri3D<SP, double> b; auto X = xyz<double>(); auto T = tri(); objs(m2); b.Init(X.data(), P.size(), T.data(), E.size(), m2 / 2.); tree(b.aNodeBVH); vol(b.aBB_BVH); self(r, b, m2); } });
  nr = thorough ? 1500 : 200;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 311 + cur_case); if (i % 2) ccd<BX>(r); else ccd<SP>(r); });
  nr = thorough ? 900 : 100;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 211 + cur_case); if (i % 2) moving<BX>(r); else moving<SP>(r); });
}
