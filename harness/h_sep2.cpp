// C24, plane: hulls of points, segments, boxes, disks.
#include "vh.h"
#include <limits>
#include <algorithm>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_gjksat2.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_aabb.h"
#include "delfem2/srch_bv2_aabb.h"
using namespace vh;
namespace dfm2 = delfem2;
typedef std::vector<std::array<long, 2>> P2;
template<class V> static void pair2(Rng &R, P2 a, P2 b, int scale) {
  using T = typename V::Scalar;
  static const double SC[] = {1, 0.0078125, 64, 0.37, 1000.1};
  const double s = SC[scale];
  auto mk = [&](const P2 &p) { std::vector<V> q; for (auto &x : p) q.push_back(V((T) (s * x[0]), (T) (s * x[1]))); return q; };
  auto sh = [&](P2 &p) { for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[R((int) i)]); };
  auto fl = [](const P2 &p) { std::vector<long> f; for (auto &x : p) { f.push_back(x[0]); f.push_back(x[1]); } return f; };
  sh(a); sh(b);
  const bool flt = sizeof(T) == 4;
  std::vector<int> g, sat, pe; std::vector<long> pn, qn;
  for (int r = 0; r < 2; ++r) { // as given, and with other orders of the points
    auto A = mk(a), B = mk(b);
    g.push_back(dfm2::IsIntersect_Points2_Points2_Gjk(A, B)); g.push_back(dfm2::IsIntersect_Points2_Points2_Gjk(B, A));
    sat.push_back(dfm2::IsIntersect_Points2_Points2_Sat(A, B)); sat.push_back(dfm2::IsIntersect_Points2_Points2_Sat(B, A));
    std::reverse(a.begin(), a.end()); sh(b);
  }
  { // flat pairs have no penetration
    std::vector<std::array<long, 2>> d; for (auto *p : {&a, &b}) for (auto &x : *p) d.push_back({x[0] - (*p)[0][0], x[1] - (*p)[0][1]});
    bool solid = false; for (auto &x : d) for (auto &y : d) if (x[0] * y[1] != x[1] * y[0]) solid = true;
    pn = qn = {0, 0};
    if (solid) {
      auto A = mk(a), B = mk(b); V n(777, 777);
      const T tol = (T) (s * (flt ? 1e-3 : 1e-7));
      pe.push_back(dfm2::Penetration_Points2_Points2_Epa(n, A, B, tol)); if (pe.back()) pn = {std::lround(n[0] / s * 1e4), std::lround(n[1] / s * 1e4)};
      n = V(777, 777);
      pe.push_back(dfm2::Penetration_Points2_Points2_Epa(n, B, A, tol)); if (pe.back()) qn = {std::lround(n[0] / s * 1e4), std::lround(n[1] / s * 1e4)};
    }
  }
  J("Pair2").arr("a", fl(a)).arr("b", fl(b)).kv("e", scale < 3 ? 1 : 0).kv("f", flt ? 1 : 0).arr("g", g).arr("s", sat).arr("p", pe).arr("pn", pn).arr("qn", qn).emit();
}
static void anyscale(Rng &R, const P2 &a, const P2 &b) {
  if (R(5) == 0) pair2<dfm2::CVec2f>(R, a, b, R(3)); else pair2<dfm2::CVec2d>(R, a, b, R(3) ? 0 : R(5));
}
template<class V> static void seg(Rng &R, const long p[8], long s) {
  using T = typename V::Scalar;
  V q[4]; std::vector<long> f; for (int i = 0; i < 4; ++i) { q[i] = V((T) (s * p[2 * i]), (T) (s * p[2 * i + 1])); f.push_back(p[2 * i]); f.push_back(p[2 * i + 1]); }
  std::vector<int> r;
  for (int m = 0; m < 8; ++m) {
    V a = q[0], b = q[1], c = q[2], d = q[3];
    if (m & 1) std::swap(a, b); if (m & 2) std::swap(c, d); if (m & 4) { std::swap(a, c); std::swap(b, d); }
    r.push_back(dfm2::IsIntersect_Edge2_Edge2(a, b, c, d));
  }
  J("Seg2").arr("p", f).arr("r", r).emit();
  // a box and a segment
  const V mn(std::min(q[0][0], q[1][0]), std::min(q[0][1], q[1][1])), mx(std::max(q[0][0], q[1][0]), std::max(q[0][1], q[1][1]));
  std::vector<long> bf = {std::min(p[0], p[2]), std::min(p[1], p[3]), std::max(p[0], p[2]), std::max(p[1], p[3]), p[4], p[5], p[6], p[7]};
  r = {(int) dfm2::IsIntersect_AABB2_Edge2(mn, mx, q[2], q[3]), (int) dfm2::IsIntersect_AABB2_Edge2(mn, mx, q[3], q[2])};
  J("BoxSeg").arr("p", bf).arr("r", r).emit();
}
static void boxes(Rng &R) {
  auto rb = [&](long mn[2], long mx[2]) { for (int k = 0; k < 2; ++k) { mn[k] = R.range(-4, 4); mx[k] = mn[k] + R(5); } if (R(6) == 0) { mn[0] = 1; mx[0] = -1; mn[1] = mx[1] = 0; } };
  long a0[2], a1[2], b0[2], b1[2]; rb(a0, a1); rb(b0, b1);
  auto mk = [&](const long mn[2], const long mx[2]) {
    if (mn[0] > mx[0]) return dfm2::CBoundingBox2<double>();
    if (R(2)) return dfm2::CBoundingBox2<double>((double) mn[0], (double) mx[0], (double) mn[1], (double) mx[1]);
    dfm2::CBoundingBox2<double> b; b.Add((double) mx[0], (double) mn[1]); b.Add((double) mn[0], (double) mx[1]); return b;
  };
  auto A = mk(a0, a1), B = mk(b0, b1); const long d = R(3);
  J("BoxBox").ptr("m1", a0, 2).ptr("x1", a1, 2).ptr("m2", b0, 2).ptr("x2", b1, 2).kv("d", d).kv("r", A.IsIntersect(B, (double) d)).emit();
  const long o[2] = {R.range(-9, 9), R.range(-9, 9)}; const long rad = R(7);
  J("BoxBall").ptr("mn", a0, 2).ptr("mx", a1, 2).ptr("o", o, 2).kv("d", rad).kv("r", A.IsIntersectSphere(dfm2::CVec2d((double) o[0], (double) o[1]), (double) rad)).emit();
}
template<class V> static void padded(Rng &R) {
  using T = typename V::Scalar; constexpr int D = V::SizeAtCompileTime;
  const int k = D; const long d = R(3); std::vector<V> p(6); std::vector<long> f;
  const int n = R.range(3, 6), sh = R.range(-4, 4), sk = R(k);
  for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) { const long x = R.range(-3, 3) + (j == sk ? sh : 0); p[i][j] = (T) x; f.push_back(x); }
  bool r = false;
  if (n == 3) r = dfm2::IsContact_Orgin_AabbOfPoint3(p[0], p[1], p[2], (T) d);
  if (n == 4) r = dfm2::IsContact_Orgin_AabbOfPoint4(p[0], p[1], p[2], p[3], (T) d);
  if (n == 5) r = dfm2::IsContact_Orgin_AabbOfPoint5(p[0], p[1], p[2], p[3], p[4], (T) d);
  if (n == 6) r = dfm2::IsContact_Orgin_AabbOfPoint6(p[0], p[1], p[2], p[3], p[4], p[5], (T) d);
  J("Pad").arr("p", f).kv("k", k).kv("d", d).kv("r", r).emit();
}
int main(int argc, char **argv) {
  init(argc, argv); cpu_limit_s = 5;
  const auto beh = read_lines(input_path);
  const size_t B = 20;
  for (size_t q0 = 0; q0 < beh.size(); q0 += B) run_case([&] {
    for (size_t q = q0; q < std::min(beh.size(), q0 + B); ++q) {
      const auto &b = beh[q]; if (b[0] != 2) continue;
      Rng R(seed * 977 + q);
      P2 p[2]; const size_t n = (size_t) b[1];
      for (size_t i = 0; 2 + 2 * i + 1 < b.size(); ++i) p[i < n ? 0 : 1].push_back({b[2 + 2 * i], b[3 + 2 * i]});
      const long sh = R(3) - 1, ox = R.range(-5, 5), oy = R.range(-5, 5), tr = R(2);
      for (auto &pp : p) for (auto &x : pp) { x[0] += sh * x[1] + ox; x[1] += oy; if (tr) std::swap(x[0], x[1]); }
      anyscale(R, p[0], p[1]);
    }
  });
  const int N = thorough ? 4000 : 500;
  for (int q = 0; q < N; ++q) run_case([=] {
    Rng R(seed * 313 + q);
    for (int r = 0; r < 4; ++r) {
      P2 p[2]; const int w = R.range(1, 7);
      for (auto &pp : p) { const int n = R.range(1, 7); const long ox = R.range(-w, w), oy = R.range(-w, w);
        for (int i = 0; i < n; ++i) pp.push_back({R(w + 1) + ox, R(w + 1) + oy});
        if (R(4) == 0) pp.push_back(pp[R((int) pp.size())]); // same point twice
        if (R(6) == 0) for (auto &x : pp) x[1] = oy; }       // flat
      if (R(6) == 0) { p[1].clear(); for (auto &x : p[0]) p[1].push_back({-x[0], -x[1]}); } // symmetric
      if (R(8) == 0) p[1] = p[0];
      anyscale(R, p[0], p[1]);
      long s[8]; const int v = R(3) ? R.range(1, 4) : 9; for (auto &x : s) x = R.range(-v, v);
      if (R(4) == 0) { s[4] = 2 * s[2] - s[0]; s[5] = 2 * s[3] - s[1]; } // on one line
      if (R(4) == 0) { s[6] = s[2] + (s[2] - s[0]) * 3; s[7] = s[3] + (s[3] - s[1]) * 3; }
      if (R(2)) seg<dfm2::CVec2d>(R, s, R(2) ? 1 : 1000); else seg<dfm2::CVec2f>(R, s, 1);
      boxes(R); padded<dfm2::CVec2d>(R); padded<dfm2::CVec2f>(R);
    }
  });
  // every pair of segments on a small lattice
  for (int q = 0; q < 256; ++q) run_case([=] {
    Rng R(seed * 11 + q);
    for (int t = 0; t < (thorough ? 256 : 40); ++t) {
      const int u = thorough ? t : R(256);
      long s[8] = {q & 3, (q >> 2) & 3, (q >> 4) & 3, (q >> 6) & 3, u & 3, (u >> 2) & 3, (u >> 4) & 3, (u >> 6) & 3};
      seg<dfm2::CVec2d>(R, s, 1);
    }
  });
  return 0;
}
