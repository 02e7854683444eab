// C24, space: hulls of points, triangles, rays, boxes, balls.
#include "vh.h"
#include <limits>
#include <algorithm>
#include "delfem2/vec3.h"
#include "delfem2/geo_gjksat3.h"
#include "delfem2/geo_convhull3.h"
#include "delfem2/geo_tri.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
using namespace vh;
namespace dfm2 = delfem2;
typedef std::vector<std::array<long, 3>> P3;
typedef dfm2::CVec3d V;
static long det(const std::array<long, 3> &a, const std::array<long, 3> &b, const std::array<long, 3> &c) {
  return a[0] * (b[1] * c[2] - b[2] * c[1]) + a[1] * (b[2] * c[0] - b[0] * c[2]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
static bool solid(const std::vector<const P3 *> &ps) {
  P3 d; for (auto *p : ps) for (auto &x : *p) d.push_back({x[0] - (*p)[0][0], x[1] - (*p)[0][1], x[2] - (*p)[0][2]});
  for (auto &x : d) for (auto &y : d) for (auto &z : d) if (det(x, y, z)) return true; return false;
}
static void pair3(Rng &R, P3 a, P3 b, int scale, bool depth = true) {
  static const double SC[] = {1, 0.0078125, 64, 0.37, 0.001, 1000.1};
  const double s = SC[scale];
  auto mk = [&](const P3 &p) { std::vector<V> q; for (auto &x : p) q.push_back(V(s * x[0], s * x[1], s * x[2])); return q; };
  auto sh = [&](P3 &p) { for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[R((int) i)]); };
  auto fl = [](const P3 &p) { std::vector<long> f; for (auto &x : p) for (long c : x) f.push_back(c); return f; };
  sh(a); sh(b);
  std::vector<int> g, sat, pe; std::vector<long> pn = {0, 0, 0}, qn = {0, 0, 0};
  const bool both = solid({&a}) && solid({&b});
  for (int r = 0; r < 2; ++r) {
    auto A = mk(a), B = mk(b);
    g.push_back(dfm2::IsIntersect_Points3_Points3_Gjk(A, B)); g.push_back(dfm2::IsIntersect_Points3_Points3_Gjk(B, A));
    if (both) {
      std::vector<unsigned int> fa, fb; // faces from the exact coordinates
      { std::vector<V> Q; for (auto &x : a) Q.push_back(V((double) x[0], (double) x[1], (double) x[2])); dfm2::ConvexHull3(fa, Q); }
      { std::vector<V> Q; for (auto &x : b) Q.push_back(V((double) x[0], (double) x[1], (double) x[2])); dfm2::ConvexHull3(fb, Q); }
      sat.push_back(dfm2::IsIntersect_Points3_Points3_Sat(A, fa, B, fb)); sat.push_back(dfm2::IsIntersect_Points3_Points3_Sat(B, fb, A, fa));
    }
    sh(a); sh(b);
  }
  if (depth && solid({&a, &b})) {
    auto A = mk(a), B = mk(b); V n(777, 777, 777); const double tol = s * 1e-7;
    pe.push_back(dfm2::Penetration_Points3_Points3_Epa(n, A, B, tol)); if (pe.back()) for (int k = 0; k < 3; ++k) pn[k] = std::lround(n[k] / s * 1e4);
    n = V(777, 777, 777);
    pe.push_back(dfm2::Penetration_Points3_Points3_Epa(n, B, A, tol)); if (pe.back()) for (int k = 0; k < 3; ++k) qn[k] = std::lround(n[k] / s * 1e4);
  }
  J("Pair3").arr("a", fl(a)).arr("b", fl(b)).kv("e", scale < 3 ? 1 : 0).kv("f", 0).arr("g", g).arr("s", sat).arr("p", pe).arr("pn", pn).arr("qn", qn).emit();
}
static void tris(Rng &R, int w) {
  std::vector<long> f(18); for (auto &x : f) x = R.range(0, w);
  if (R(3) == 0) { for (int k = 0; k < 3; ++k) f[9 + k] = f[k] + f[3 + k] - f[9 + k]; for (auto &x : f) x = std::min(6l, std::max(0l, x)); }
  for (int t = 0; t < 2; ++t) { // nothing degenerate
    const long *p = &f[9 * t]; long d1[3], d2[3]; for (int k = 0; k < 3; ++k) { d1[k] = p[3 + k] - p[k]; d2[k] = p[6 + k] - p[k]; }
    if (d1[1] * d2[2] == d1[2] * d2[1] && d1[2] * d2[0] == d1[0] * d2[2] && d1[0] * d2[1] == d1[1] * d2[0]) return;
  }
  std::vector<double> xyz; const int pad = R(3); for (int i = 0; i < 3 * pad; ++i) xyz.push_back(50 + i);
  for (long x : f) xyz.push_back((double) x);
  std::vector<int> r; V P0(9, 9, 9), P1(9, 9, 9); std::vector<long> x, y;
  for (int m = 0; m < 12; ++m) {
    std::vector<unsigned int> tri = {0, 1, 2, 3, 4, 5};
    const int rot = m % 3; std::vector<unsigned int> o = {(unsigned) rot, (unsigned) ((rot + 1) % 3), (unsigned) ((rot + 2) % 3)};
    if ((m / 3) & 1) std::swap(o[0], o[1]);
    tri = {o[0], o[1], o[2], 3 + o[2], 3 + o[0], 3 + o[1]};
    for (auto &t : tri) t += (unsigned) pad;
    const int i = (m / 6) & 1;
    r.push_back(dfm2::isIntersectTriPair(P0, P1, i, 1 - i, tri, xyz));
    if (r.back()) { x.clear(); y.clear(); for (int k = 0; k < 3; ++k) { x.push_back(std::lround(1000 * P0[k])); y.push_back(std::lround(1000 * P1[k])); } }
  }
  if (x.empty()) x = y = {0, 0, 0};
  J("Tri3").arr("p", f).arr("r", r).arr("x", x).arr("y", y).emit();
}
static void ray(Rng &R, int w) {
  std::vector<long> f(15); for (auto &x : f) x = R.range(-w, w);
  if (f[3] == 0 && f[4] == 0 && f[5] == 0) f[3] = 1;
  { const long *p = &f[6]; long d1[3], d2[3]; for (int k = 0; k < 3; ++k) { d1[k] = p[3 + k] - p[k]; d2[k] = p[6 + k] - p[k]; }
    if (d1[1] * d2[2] == d1[2] * d2[1] && d1[2] * d2[0] == d1[0] * d2[2] && d1[0] * d2[1] == d1[1] * d2[0]) return; }
  V q[5]; for (int i = 0; i < 5; ++i) q[i] = V((double) f[3 * i], (double) f[3 * i + 1], (double) f[3 * i + 2]);
  std::vector<int> r; V hit;
  for (int m = 0; m < 6; ++m) {
    const int a = m % 3; V t[3] = {q[2 + a], q[2 + (a + 1) % 3], q[2 + (a + 2) % 3]}; if (m >= 3) std::swap(t[0], t[2]);
    r.push_back(dfm2::isRayIntersectingTriangle(q[0], q[0] + q[1], t[0], t[1], t[2], hit));
  }
  J("Ray").arr("p", f).arr("r", r).emit();
}
static void boxes(Rng &R) {
  auto rb = [&](long mn[3], long mx[3]) { for (int k = 0; k < 3; ++k) { mn[k] = R.range(-3, 3); mx[k] = mn[k] + R(4); } if (R(6) == 0) { mn[0] = 1; mx[0] = -1; } };
  long a0[3], a1[3], b0[3], b1[3]; rb(a0, a1); rb(b0, b1);
  auto mk = [&](const long mn[3], const long mx[3]) {
    const double p[3] = {(double) mn[0], (double) mn[1], (double) mn[2]}, q[3] = {(double) mx[0], (double) mx[1], (double) mx[2]};
    if (mn[0] > mx[0]) { dfm2::CBV3_AABB<double> b; if (R(2)) { b += p; b.Set_Inactive(); } return b; }
    if (R(2)) return dfm2::CBV3_AABB<double>(p, q);
    dfm2::CBV3_AABB<double> b; b += q; b += p; return b;
  };
  auto A = mk(a0, a1), B = mk(b0, b1);
  J("BoxBox").ptr("m1", a0, 3).ptr("x1", a1, 3).ptr("m2", b0, 3).ptr("x2", b1, 3).kv("d", 0).kv("r", A.IsIntersect(B)).emit();
}
static void balls(Rng &R) {
  const int w = R(3) ? 5 : 20; const long c[3] = {R.range(-w, w), R.range(-w, w), R.range(-w, w)}, o[3] = {R.range(-w, w), R.range(-w, w), R.range(-w, w)};
  long d[3] = {R.range(-5, 5), R.range(-5, 5), R.range(-5, 5)}; if (!d[0] && !d[1] && !d[2]) d[R(3)] = 1;
  const long r = R(w + 1), r2 = R(w + 1);
  const double far = R(3) == 0 ? 4096. : 1.; // the same picture in other units
  dfm2::CBV3_Sphere<double> A, B; const double pc[3] = {c[0] * far, c[1] * far, c[2] * far}, po[3] = {o[0] * far, o[1] * far, o[2] * far}, pd[3] = {d[0] * far, d[1] * far, d[2] * far};
  A.AddPoint(pc, r * far); B.AddPoint(po, r2 * far);
  J("Ball").ptr("z", c, 3).ptr("o", o, 3).ptr("d", d, 3).kv("r", r).kv("r2", r2).kv("line", A.IsIntersectLine(po, pd)).kv("ray", A.IsIntersectRay(po, pd)).kv("ball", A.IsIntersect(B)).emit();
}
// a corner of the second shape right before (or just behind) the inside of a face of the first: next to nothing but that face separates them
static void facing(Rng &R) {
  P3 a, b; const int m = R.range(4, 6); do { a.clear(); for (int i = 0; i < m; ++i) a.push_back({9 * R(3), 9 * R(3), 9 * R(3)}); } while (!solid({&a}));
  std::vector<unsigned int> f; { std::vector<V> Q; for (auto &x : a) Q.push_back(V((double) x[0], (double) x[1], (double) x[2])); dfm2::ConvexHull3(f, Q); }
  if (f.size() < 12) return; const int k = R((int) f.size() / 3); const auto &x = a[f[3 * k]], &y = a[f[3 * k + 1]], &z = a[f[3 * k + 2]];
  const std::array<long, 3> u = {(y[0] - x[0]) / 9, (y[1] - x[1]) / 9, (y[2] - x[2]) / 9}, v = {(z[0] - x[0]) / 9, (z[1] - x[1]) / 9, (z[2] - x[2]) / 9};
  std::array<long, 3> n = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]}; if (!n[0] && !n[1] && !n[2]) return;
  auto dot = [&](const std::array<long, 3> &q) { return n[0] * q[0] + n[1] * q[1] + n[2] * q[2]; };
  { long s = 0; for (auto &q : a) s += dot(q) - dot(x); if (s > 0) for (auto &c : n) c = -c; } // away from the shape
  const int want = R(4) ? 1 : -1; std::array<long, 3> w = {0, 0, 0}; long best = 0;
  for (int t = 0; t < 40; ++t) { const std::array<long, 3> q = {R.range(-1, 1), R.range(-1, 1), R.range(-1, 1)}; const long d = dot(q) * want; if (d > 0 && (!best || d < best)) { best = d; w = q; } }
  if (!best) return;
  std::array<long, 3> c; for (int d = 0; d < 3; ++d) c[d] = (x[d] + y[d] + z[d]) / 3 + w[d];
  do { b.assign(1, c); for (int i = R.range(3, 4); i > 0; --i) { std::array<long, 3> q; do { q = {R.range(-9, 9), R.range(-9, 9), R.range(-9, 9)}; } while (dot(q) < 0); b.push_back({c[0] + q[0], c[1] + q[1], c[2] + q[2]}); } } while (!solid({&b}));
  for (auto *q : {&a, &b}) for (auto &t : *q) for (auto &d : t) d -= 9;
  pair3(R, a, b, R(3) ? 0 : R(3), false);
}
int main(int argc, char **argv) {
  init(argc, argv); cpu_limit_s = 5;
  const auto beh = read_lines(input_path);
  std::vector<size_t> sel; { const size_t step = thorough ? 6 : 60; for (size_t q = seed % step; q < beh.size(); q += step) sel.push_back(q); }
  const size_t B = 10;
  for (size_t q0 = 0; q0 < sel.size(); q0 += B) run_case([&] {
    for (size_t z = q0; z < std::min(sel.size(), q0 + B); ++z) {
      const auto &b = beh[sel[z]]; if (b[0] != 3) continue;
      Rng R(seed * 977 + sel[z]);
      P3 p[2]; const size_t n = (size_t) b[1];
      for (size_t i = 0; 2 + 3 * i + 2 < b.size(); ++i) p[i < n ? 0 : 1].push_back({b[2 + 3 * i], b[3 + 3 * i], b[4 + 3 * i]});
      const long ax = R(3), o = R.range(-3, 3), sh = R(3) == 0;
      for (auto &pp : p) for (auto &x : pp) { for (auto &c : x) c += o; x[0] += sh * x[1]; std::rotate(x.begin(), x.begin() + ax, x.end()); }
      pair3(R, p[0], p[1], R(3) ? 0 : R(6));
    }
  });
  const int N = thorough ? 2500 : 250;
  for (int q = 0; q < N; ++q) run_case([=] {
    Rng R(seed * 313 + q);
    for (int r = 0; r < 3; ++r) {
      P3 p[2]; const int w = R.range(1, 3);
      for (auto &pp : p) { const int n = R.range(1, 6); const long o[3] = {R.range(-w, w), R.range(-w, w), R.range(-w, w)};
        for (int i = 0; i < n; ++i) pp.push_back({R(w + 1) + o[0], R(w + 1) + o[1], R(w + 1) + o[2]});
        if (R(4) == 0) pp.push_back(pp[R((int) pp.size())]); }
      if (R(6) == 0) { p[1].clear(); for (auto &x : p[0]) p[1].push_back({-x[0], -x[1], -x[2]}); }
      if (R(8) == 0) p[1] = p[0];
      if (R(5) == 0) { const long o[3] = {R.range(-2, 2), R.range(-2, 2), R.range(-2, 2)}; p[1].clear(); for (auto &x : p[0]) p[1].push_back({x[0] + o[0], x[1] + o[1], x[2] + o[2]}); }
      pair3(R, p[0], p[1], R(3) ? 0 : R(6));
    }
    for (int r = 0; r < 2; ++r) facing(R);
    for (int r = 0; r < 12; ++r) { tris(R, R.range(2, 6)); ray(R, R.range(1, 5)); boxes(R); balls(R); }
  });
  return 0;
}
