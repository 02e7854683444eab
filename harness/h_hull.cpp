// C23: convex hulls of lattice points.
#include "vh.h"
#include <algorithm>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_convhull2.h"
#include "delfem2/geo_convhull3.h"
using namespace vh;
namespace dfm2 = delfem2;
typedef std::vector<std::array<long, 2>> P2;
typedef std::vector<std::array<long, 3>> P3;
// the same picture in other units: exact powers of two
static double unit(Rng &R) { static const int e[] = {0, 0, -14, -7, 8, 20, -20, 1}; return std::ldexp(1., e[R(8)]); }
template<class V> static void hull2(Rng &R, const P2 &p) {
  typedef typename V::Scalar S; const S s = (S) unit(R);
  std::vector<V> q; std::vector<long> flat;
  for (auto &x : p) { q.push_back(V(s * (S) x[0], s * (S) x[1])); flat.push_back(x[0]); flat.push_back(x[1]); }
  std::vector<unsigned int> h; if (R(2)) for (int i = R(6); i > 0; --i) h.push_back((unsigned) R(9));
  dfm2::ConvexHull2(h, q);
  J("Hull2").arr("p", flat).arr("h", h).emit();
}
template<class V> static void hull3(Rng &R, const P3 &p) {
  typedef typename V::Scalar S; const S s = (S) unit(R);
  std::vector<V> q; std::vector<long> flat;
  for (auto &x : p) { q.push_back(V(s * (S) x[0], s * (S) x[1], s * (S) x[2])); for (long c : x) flat.push_back(c); }
  std::vector<unsigned int> t; if (R(2)) for (int i = R(20); i > 0; --i) t.push_back((unsigned) R(9));
  dfm2::ConvexHull3(t, q);
  J("Hull3").arr("p", flat).arr("t", t).emit();
}
template<class P> static void shuffle(Rng &R, P &p) { for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[R((int) i)]); }
int main(int argc, char **argv) {
  init(argc, argv); cpu_limit_s = 5;
  const auto beh = read_lines(input_path);
  // several point sets per case
  const size_t B = 40;
  for (size_t q0 = 0; q0 < beh.size(); q0 += B) run_case([&] {
    for (size_t q = q0; q < std::min(beh.size(), q0 + B); ++q) {
      Rng R(seed * 977 + q);
      const auto &b = beh[q];
      if (b[0] == 2) {
        P2 p; for (size_t i = 1; i + 1 < b.size(); i += 2) p.push_back({b[i], b[i + 1]});
        const size_t n = p.size(); if (n && R(2)) for (int i = R(4); i > 0; --i) p.push_back(p[R((int) n)]); // duplicates
        shuffle(R, p);
        const long s = R(3) == 0 ? 1 : R.range(1, 300), ox = R.range(-500, 500), oy = R.range(-500, 500), sh = R(3) - 1, tr = R(2);
        for (auto &x : p) { x[0] = s * x[0] + sh * s * x[1] + ox; x[1] = s * x[1] + oy; if (tr) std::swap(x[0], x[1]); }
        if (R(2)) hull2<dfm2::CVec2d>(R, p); else hull2<dfm2::CVec2f>(R, p);
      } else {
        P3 p; for (size_t i = 1; i + 2 < b.size(); i += 3) p.push_back({b[i], b[i + 1], b[i + 2]});
        if (R(3) == 0) { for (int i = R(3); i >= 0; --i) p.insert(p.begin() + R((int) p.size() + 1), p[R((int) p.size())]); }
        const long s = R.range(1, 9), o = R.range(-20, 20), ax = R(3);
        for (auto &x : p) { for (auto &c : x) c = s * c + o; std::rotate(x.begin(), x.begin() + ax, x.end()); if (R(2) < 0) x[0] = -x[0]; }
        if (R(2)) for (auto &x : p) x[1] += 2 * x[0];
        if (R(2)) hull3<dfm2::CVec3d>(R, p); else hull3<dfm2::CVec3f>(R, p);
      }
    }
  });
  const int N2 = thorough ? 3000 : 400;
  for (int q = 0; q < N2; ++q) run_case([=] {
    Rng R(seed * 313 + q);
    for (int r = 0; r < 4; ++r) {
      P2 p; const int kind = R(7); const int n = R(4) == 0 ? R(5) : R(40);
      const long w = R(2) ? R.range(1, 6) : (R(2) ? 100 : 9000);
      for (int i = 0; i < n; ++i) {
        const long t = R.range((int) -w, (int) w);
        switch (kind) {
          case 0: case 1: p.push_back({R.range((int) -w, (int) w), R.range((int) -w, (int) w)}); break;
          case 2: p.push_back({t, 3}); break;                                   // horizontal run
          case 3: p.push_back({-4, t}); break;                                  // vertical run
          case 4: p.push_back({t, (w > 100 ? 0 : 2 * t) + 1}); break;           // slanted run
          case 5: { const long c[4][2] = {{0, 0}, {w, 0}, {w, w}, {0, w}}; const int e = R(4); const long u = R((int) w + 1); // on the sides of a square
                    p.push_back({c[e][0] + (c[(e + 1) % 4][0] - c[e][0]) / w * u, c[e][1] + (c[(e + 1) % 4][1] - c[e][1]) / w * u}); break; }
          case 6: p.push_back({t, R(2)}); break;                                // two rows, nearly flat
        }
      }
      if (kind == 6 && R(2)) for (auto &x : p) std::swap(x[0], x[1]);
      if (p.size() > 1 && R(3) == 0) p.push_back(p[R((int) p.size())]);
      shuffle(R, p);
      const bool f = w <= 1000 && R(3) == 0;
      if (f) hull2<dfm2::CVec2f>(R, p); else hull2<dfm2::CVec2d>(R, p);
    }
  });
  const int N3 = thorough ? 2500 : 350;
  for (int q = 0; q < N3; ++q) run_case([=] {
    Rng R(seed * 717 + q);
    for (int r = 0; r < 3; ++r) {
      P3 p; const int kind = R(7); const int n = R(5) == 0 ? R(6) : R(thorough ? 36 : 22);
      const int w = R(2) ? R.range(1, 3) : (R(2) ? 8 : 60);
      for (int i = 0; i < n; ++i) {
        std::array<long, 3> x = {R.range(-w, w), R.range(-w, w), R.range(-w, w)};
        if (kind == 2) x[R(3)] = R(2) ? w : -w;             // on the faces of a cube
        if (kind == 3) x[2] = 5;                            // flat
        if (kind == 4) { x[1] = x[0] + 1; x[2] = -x[0]; }   // a line
        if (kind == 5) x[2] = i < n / 2 ? 0 : x[2];         // begins flat
        if (kind == 6) x[2] = x[0] * x[0] + x[1] * x[1] > 3600 ? 60 : (x[0] * x[0] + x[1] * x[1]) / (w > 8 ? 60 : 1); // bowl
        p.push_back(x);
      }
      if (p.size() > 1) for (int i = R(4); i > 0; --i) p.insert(p.begin() + R((int) p.size()), p[R((int) p.size())]);
      if (R(2)) hull3<dfm2::CVec3d>(R, p); else { bool f = w <= 8; if (f) hull3<dfm2::CVec3f>(R, p); else hull3<dfm2::CVec3d>(R, p); }
    }
  });
  return 0;
}
