// C12: k-d trees, uniform and hashed grids, exhaustive searches on meshes
#include "vh.h"
#include <map>
#include <set>
#include <unordered_map>
#include <limits>
#include <algorithm>
#include "delfem2/vec3.h"
#include "delfem2/srch_kdtree.h"
#include "delfem2/srch_kdtree_tri.h"
#include "delfem2/srchgrid.h"
#include "delfem2/grid3hash.h"
#include "delfem2/srch_bruteforce.h"
#include "delfem2/msh_topology_uniform.h"
using namespace delfem2; using namespace vh;
typedef std::array<int, 3> I3; typedef std::vector<unsigned> VU;
static std::vector<I3> P; static std::vector<VU> E;
static void pts() { J("Pts").arr2("x", P).arr2("el", E).emit(); }
static I3 q3(Rng &r, int a, int b) { return {r.range(a, b), r.range(a, b), r.range(a, b)}; }
static std::vector<double> xyz() { std::vector<double> x; for (auto &p : P) for (int c : p) x.push_back(c); return x; }
static VU tri() { VU t; for (auto &e : E) for (auto i : e) t.push_back(i); return t; }
static bool flat(const VU &e) { long a[3], b[3]; for (int d = 0; d < 3; ++d) { a[d] = P[e[1]][d] - P[e[0]][d]; b[d] = P[e[2]][d] - P[e[0]][d]; }
  return a[1] * b[2] == a[2] * b[1] && a[2] * b[0] == a[0] * b[2] && a[0] * b[1] == a[1] * b[0]; }
static void kdp(Rng &r, int mx) {
  E.clear(); pts(); std::vector<CVec3d> v; for (auto &p : P) v.emplace_back(p[0], p[1], p[2]); auto *k = ConstructKDT(v);
  for (int i = 0; i < 6; ++i) { I3 q = q3(r, -2, mx + 2); CVec3d c = SearchNearstPoint(k, CVec3d(q[0], q[1], q[2])); J("Near").arr("q", q).arr("got", std::array<long, 3>{EX(c.x), EX(c.y), EX(c.z)}).emit(); } }
static void mesh(Rng &r, int kind, int mx) {
  P.clear(); E.clear();
  if (kind == 1) { int w = 2 + r(3), h = 2 + r(2); for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) P.push_back({i, r(2) ? 0 : r(mx), j}); int ax = r(3); for (auto &p : P) std::swap(p[1], p[ax]);
    for (unsigned j = 0; j + 1 < (unsigned) h; ++j) for (unsigned i = 0; i + 1 < (unsigned) w; ++i) { unsigned a = j * w + i, b = a + 1, c = a + w, d = c + 1; E.push_back({a, b, d}); E.push_back({a, d, c}); } return; }
  int n = 1 + r(kind == 0 ? 8 : 6);
  for (int i = 0; i < n; ++i) { unsigned b = P.size(); int m = r(2) ? mx : 1; I3 o = q3(r, 0, mx - m); do { P.resize(b); for (int k = 0; k < 3; ++k) { I3 p = q3(r, 0, m); for (int d = 0; d < 3; ++d) p[d] += o[d]; P.push_back(p); } } while (flat({b, b + 1, b + 2})); E.push_back({b, b + 1, b + 2}); } }
static double F;
static I3 dir(Rng &r) { I3 d; do d = q3(r, -2, 2); while (!d[0] && !d[1] && !d[2]); return d; }
static void tris(Rng &r, int kind) {
  F = 1 << 28; int mx = kind == 1 ? 3 : 3 + r(4); mesh(r, kind, mx); pts(); std::vector<double> X = xyz(); VU T = tri(); std::vector<CVec3d> v; for (auto &p : P) v.emplace_back(p[0], p[1], p[2]); size_t n = E.size();
  if (r(4) == 0) for (auto &c : v) c += CVec3d(F, F, F); else F = 0;
  KDTTriangle<CVec3d> k(v, T); VU adj; ElSuEl_MeshElem(adj, T.data(), n, MESHELEM_TRI, P.size());
  for (int i = 0; i < 4; ++i) { I3 q = q3(r, -1, mx + 1); CVec3d c(q[0] + F, q[1] + F, q[2] + F); J("Cand").arr("q", q).arr("cand", k.SearchNearest(c)).emit(); }
  for (int i = 0; i < 2; ++i) { I3 q = q3(r, -1, mx + 1); CVec3d c(q[0], q[1], q[2]); std::vector<int> part; if (i) { for (unsigned t = 0; t < n; ++t) if (r(2)) part.push_back(t); if (part.empty()) part.push_back(r(n)); }
    PointOnSurfaceMesh<double> s = i ? Nearest_Point_MeshTri3DPart(c, X, T, part) : Nearest_Point_MeshTri3D(c, X, T); double d = s.itri < n ? (CVec3d(s.PositionOnMeshTri3(X, T).data()) - c).squaredNorm() : -1; J("NearTri").arr("q", q).arr("part", part).kv("tri", s.itri).kv("d2k", std::lrint(d * 1000)).emit(); }
  for (int i = 0; i < 3; ++i) { I3 q = q3(r, -1, mx + 1), d = dir(r); VU &e = E[r(n)]; if (r(3)) for (int a = 0; a < 3; ++a) d[a] = P[e[0]][a] + P[e[1]][a] + P[e[2]][a] - 3 * q[a]; if (!d[0] && !d[1] && !d[2]) d = dir(r); CVec3d o(q[0], q[1], q[2]), g(d[0], d[1], d[2]);
    { VU l; for (auto &s : IntersectionLine_MeshTri3(o, g, T, X, 1e-9)) l.push_back(s.itri); J("Line").arr("q", q).arr("d", d).arr("list", l).emit(); }
    std::map<double, PointOnSurfaceMesh<double>> m; if (r(2)) m[-3] = PointOnSurfaceMesh<double>(77, 0, 0); VU part; if (i == 2) for (unsigned t = 0; t < n; ++t) if (r(2)) part.push_back(t);
    if (part.empty()) IntersectionRay_MeshTri3(m, o, g, T, X, 1e-9); else IntersectionRay_MeshTri3DPart(m, o, g, T, X, part, 1e-9);
    VU l; for (auto &s : m) l.push_back(s.second.itri); J("Ahead").arr("q", q).arr("d", d).arr("part", part).arr("list", l).emit(); }
  for (int i = 0; i < 3; ++i) { I3 q = q3(r, 0, mx); int rad = 1 + 2 * r(4); unsigned s = r(n); VU l = IndexesOfConnectedTriangleInSphere({(double) q[0], (double) q[1], (double) q[2]}, rad / 2., s, X, T, adj); J("Conn").arr("q", q).kv("r", rad).kv("s", s).arr("list", l).emit(); } }
static void more(Rng &r) {
  { unsigned nx = 2 + r(3), ny = 2 + r(3); std::vector<float> H; P.clear(); E.clear(); for (unsigned j = 0; j < ny; ++j) for (unsigned i = 0; i < nx; ++i) { int h = r(2) ? 0 : r(4); H.push_back(h); P.push_back({(int) i, (int) j, h}); }
    for (unsigned j = 0; j + 1 < ny; ++j) for (unsigned i = 0; i + 1 < nx; ++i) { unsigned a = j * nx + i; E.push_back({a, a + 1, a + 1 + nx}); E.push_back({a, a + 1 + nx, a + nx}); }
    pts(); for (int i = 0; i < 4; ++i) { I3 q = q3(r, -1, 4), d = dir(r); if (r(4)) { VU &e = E[r(E.size())]; for (int a = 0; a < 3; ++a) d[a] = P[e[0]][a] + P[e[1]][a] + P[e[2]][a] - 3 * q[a]; } if (!d[0] && !d[1] && !d[2]) d = {0, 0, 1};
      std::vector<PointOnSurfaceMesh<double>> l; if (r(2)) { q = {q[0], q[1], q[2]}; } double o[3] = {(double) q[0], (double) q[1], (double) q[2]}, g[3] = {(double) d[0], (double) d[1], (double) d[2]}; IntersectionLine_Hightfield(l, o, g, nx, ny, H);
      VU t; for (auto &s : l) { unsigned c = s.itri / 2, x = c % nx, y = c / nx; t.push_back((y * (nx - 1) + x) * 2 + s.itri % 2 + (x + 1 == nx ? 100000 : 0)); } J("Line").arr("q", q).arr("d", d).arr("list", t).emit(); } }
  { int mx = 3; mesh(r, r(3), mx); pts(); std::vector<double> X = xyz(); VU T = tri(); size_t n = E.size(); VU adj; ElSuEl_MeshElem(adj, T.data(), n, MESHELEM_TRI, P.size());
    for (int i = 0; i < 3; ++i) { I3 q = q3(r, -1, mx + 1); int t = r(n); CVec3d c(q[0], q[1], q[2]); PointOnSurfaceMesh<double> s; s.itri = 99; double d = i ? DistanceToTri(s, c, t, X, T) : DistanceToTri(s, c, t, X.data(), P.size(), T.data(), n); double d2 = (CVec3d(s.PositionOnMeshTri3(X, T).data()) - c).squaredNorm(); if (std::fabs(d * d - d2) > 1e-6) d2 = -1;
      J("NearTri").arr("q", q).arr("part", VU{(unsigned) t}).kv("tri", s.itri).kv("d2k", std::lrint(d2 * 1000)).emit(); }
    auto at = [&](unsigned t, int k) { return std::make_tuple(t, k == 0 ? 1. : 0., k == 1 ? 1. : 0.); };
    for (int i = 0; i < 3; ++i) { std::vector<std::tuple<unsigned, double, double>> sm; std::multimap<unsigned, unsigned> em; std::vector<VU> sl; int k = r(4); for (int a = 0; a < k; ++a) { unsigned t = r(n), c = r(3); sm.push_back(at(t, c)); em.insert({t, (unsigned) a}); sl.push_back({t, E[t][c]}); }
      unsigned t = r(n), c = r(3); int rad = 1 + 2 * r(3); bool b = IsTherePointOnMeshInsideSphere(at(t, c), rad / 2., sm, em, X, T, adj); J("There").arr("q", P[E[t][c]]).kv("s", t).kv("r", rad).arr2("smp", sl).kv("got", b).emit(); } }
  { P.clear(); E.clear(); int n = 1 + r(4); std::vector<int> tt; for (int i = 0; i < n; ++i) { unsigned b = P.size(); for (;;) { P.resize(b); for (int k = 0; k < 4; ++k) P.push_back(q3(r, 0, 3)); long m[9]; for (int k = 0; k < 9; ++k) m[k] = P[b + 1 + k / 3][k % 3] - P[b][k % 3];
        if (m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6])) break; } E.push_back({b, b + 1, b + 2, b + 3}); for (unsigned k = 0; k < 4; ++k) tt.push_back(b + k); }
    pts(); std::vector<double> X = xyz(); for (int i = 0; i < 6; ++i) { I3 q = q3(r, 0, 3); CVec3d c(q[0], q[1], q[2]); PointInSolidMesh<double> s = Nearest_Point_MeshTet3D(c, X, tt); long bad = s.ielem >= 0 && (s.getPos_Tet(X, tt) - c).norm() > 1e-6; J("Tet").arr("q", q).kv("t", s.ielem).kv("bad", bad).emit(); } } }
static void grid(Rng &r, int mx, int nobj) { // in halves
  P.clear(); E.clear(); I3 lo = q3(r, -3, 2), hi; int h = 1 + r(4); for (int d = 0; d < 3; ++d) hi[d] = lo[d] + r(mx + 1); if (r(3) == 0) hi[r(3)] = lo[r(3)]; for (int d = 0; d < 3; ++d) if (hi[d] < lo[d]) hi[d] = lo[d];
  double a[3], b[3]; for (int d = 0; d < 3; ++d) { a[d] = lo[d] / 2.; b[d] = hi[d] / 2.; }
  auto rp = [&] { I3 p; for (int d = 0; d < 3; ++d) p[d] = r.range(lo[d] - 2, hi[d] + 2); return p; };
  for (int i = 0; i < nobj; ++i) P.push_back(r(4) == 0 && i ? P[r(i)] : rp());
  J("Grid").arr("lo", lo).arr("hi", hi).kv("h", h).emit(); SearchGrid G; if (r(2)) { G.aGrid2Obj_ind.assign(9, 4u); } G.Initialize(a, b, h / 2., nobj); 
  for (int round = 0; round < 3; ++round) { if (round) for (auto &p : P) if (r(2)) p = rp(); pts();
    for (int i = 0; i < nobj; ++i) { if (round == 0) G.aGrid2Obj[i].iobj = i; I3 p = P[G.aGrid2Obj[i].iobj]; double c[3] = {p[0] / 2., p[1] / 2., p[2] / 2.}; G.aGrid2Obj[i].igrid = G.GetGridIndex(c); }
    G.PostProcess(round == 0 || r(3) == 0); VU o; for (auto &g : G.aGrid2Obj) o.push_back(g.iobj); J("Post").arr("obj", o).arr("ind", G.aGrid2Obj_ind).emit();
    for (int i = 0; i < 3; ++i) { I3 p = rp(); double c[3] = {p[0] / 2., p[1] / 2., p[2] / 2.}; J("Cell").arr("q", p).kv("ix", G.GetGridIndex(c)).emit(); VU l; if (r(2)) l.assign(4, 7u); G.GetOneRingNeighbor(l, c); J("Ring").arr("q", p).arr("list", l).emit(); } } }
static void hsh(Rng &r) { std::unordered_map<GridCoordinate3, int> m; std::unordered_multimap<GridCoordinate3, int> mm; J("HNew").emit(); int mx = 1 + r(3); std::vector<I3> all;
  for (int i = 0; i < 20; ++i) { I3 q = q3(r, -mx, mx); all.push_back(q); m[GridCoordinate3(q[0], q[1], q[2])]++; mm.emplace(GridCoordinate3(q[0], q[1], q[2]), i); J("HPut").arr("q", q).emit();
    I3 p = r(2) ? q3(r, -mx, mx) : all[r(all.size())]; I3 z = r(2) ? p : I3{p[2], p[1], p[0]}; GridCoordinate3 c(p[0], p[1], p[2]); auto it = m.find(c); int n = it == m.end() ? 0 : it->second; if ((int) mm.count(c) != n) n = -5; J("HGet").arr("q", p).kv("n", n).arr("p", z).kv("eq", c == GridCoordinate3(z[0], z[1], z[2])).emit(); } }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  for (auto &v : read_lines(input_path)) run_case([&] { Rng r(seed * 131 + cur_case); P.clear(); int s[3] = {1 + r(2), 1 + r(2), 1 + r(2)}, o[3] = {r(3), r(3), r(3)}; if (r(3) == 0) s[r(3)] = 0;
    for (long c : v) P.push_back({(int) (c & 1) * s[0] + o[0], (int) ((c >> 1) & 1) * s[1] + o[1], (int) ((c >> 2) & 1) * s[2] + o[2]}); for (size_t i = P.size(); i-- > 1;) std::swap(P[i], P[r(i + 1)]); kdp(r, 4); });
  int nr = thorough ? 1500 : 200;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 977 + cur_case); P.clear(); int n = 1 + r(thorough ? 40 : 20), mx = 1 + r(5); for (int k = 0; k < n; ++k) P.push_back(r(6) == 0 && k ? P[r(k)] : q3(r, 0, mx)); kdp(r, mx); });
  nr = thorough ? 4000 : 500;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 733 + cur_case); tris(r, i % 3); });
  nr = thorough ? 1500 : 200; for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 631 + cur_case); more(r); });
  nr = thorough ? 2000 : 250;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 517 + cur_case); grid(r, 1 + r(9), r(8) ? 1 + r(14) : 0); });
  for (int i = 0; i < 40; ++i) run_case([&] { Rng r(seed * 311 + cur_case); hsh(r); });
  run_case([&] { for (int k = -20; k <= 20; ++k) { double x = k / 8.; J("Ker").kv("k", k).kv("w", RX(WGrid1Cubic(x), 3072, 1e-6)).kv("dw", RX(dWGrid1Cubic(x), 128, 1e-6)).emit(); } 
    for (int a = -9; a <= 9; a += 3) for (int b = -12; b <= 12; b += 4) { double h = 2; double w = WGrid3Cubic(h, a / 16., b / 16., 0.) * 1.5, d = dWGrid3Cubic(h, a / 16., b / 16., 0.) / h * 1.5; double wb = WGrid1Cubic(b / 8.); J("Ker").kv("k", a).kv("w", RX(w / wb, 3072, 1e-5)).kv("dw", RX(d / wb, 128, 1e-5)).emit(); } });
}
