// C25: tetrahedra under point insertion.
#include "vh.h"
#include <array>
#include <map>
#include <algorithm>
#include "delfem2/vec3.h"
#include "delfem2/dtet_v3.h"
using namespace vh;
namespace dfm2 = delfem2;
typedef std::array<long, 3> I3;
typedef dfm2::CVec3d V;
static long dot(const I3 &a, const I3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static I3 sub(const I3 &a, const I3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static long det(const I3 &a, const I3 &b, const I3 &c) {
  return a[0] * (b[1] * c[2] - b[2] * c[1]) + a[1] * (b[2] * c[0] - b[0] * c[2]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
static long vol6(const I3 &a, const I3 &b, const I3 &c, const I3 &d) { return det(sub(b, a), sub(c, a), sub(d, a)); }
static long insph(const I3 &a, const I3 &b, const I3 &c, const I3 &d, const I3 &p) {
  const I3 A = sub(a, p), B = sub(b, p), C = sub(c, p), E = sub(d, p);
  const long x = dot(E, E) * det(A, B, C) - dot(C, C) * det(A, B, E) + dot(B, B) * det(A, C, E) - dot(A, A) * det(B, C, E);
  return vol6(a, b, c, d) > 0 ? -x : x;
}
struct Mesh {
  std::vector<I3> P; double s = 1; V o;
  std::vector<dfm2::CDynPointTet> po; std::vector<dfm2::CDynTet> te; std::vector<V> ce; std::vector<int> tb;
  V pos(const I3 &p) const { return V(s * p[0] + o.x, s * p[1] + o.y, s * p[2] + o.z); }
  void init(long L) {
    P = {{-L, L, -L}, {L, -L, -L}, {L, L, L}, {-L, -L, L}};
    for (int i = 0; i < 4; ++i) { dfm2::CDynPointTet q; q.p = pos(P[i]); q.e = 0; q.poel = i; po.push_back(q); }
    dfm2::CDynTet t; for (int i = 0; i < 4; ++i) { t.v[i] = i; t.s[i] = UINT_MAX; } te.push_back(t);
    ce.push_back(dfm2::CircumCenter(po[0].p, po[1].p, po[2].p, po[3].p));
    J("Init").arr2("pts", P).emit();
  }
  bool fits(const I3 &p) const { // strictly inside, new, on no sphere
    if (vol6(p, P[1], P[2], P[3]) <= 0 || vol6(P[0], p, P[2], P[3]) <= 0 || vol6(P[0], P[1], p, P[3]) <= 0 || vol6(P[0], P[1], P[2], p) <= 0) return false;
    for (auto &q : P) if (q == p) return false;
    for (auto &t : te) if (t.isActive()) { for (unsigned v : t.v) if (v >= P.size()) return true; if (insph(P[t.v[0]], P[t.v[1]], P[t.v[2]], P[t.v[3]], p) == 0) return false; }
    return true;
  }
  std::vector<unsigned> hits(const I3 &p) const {
    std::vector<unsigned> r;
    for (unsigned i = 0; i < te.size(); ++i) { const unsigned *v = te[i].v; if (!te[i].isActive()) continue;
      if (vol6(p, P[v[1]], P[v[2]], P[v[3]]) >= 0 && vol6(P[v[0]], p, P[v[2]], P[v[3]]) >= 0 && vol6(P[v[0]], P[v[1]], p, P[v[3]]) >= 0 && vol6(P[v[0]], P[v[1]], P[v[2]], p) >= 0) r.push_back(i); }
    return r;
  }
  I3 greedy() const {
    I3 best = {0, 0, 0}; long sc = -1000;
    for (long x = -3; x <= 3; ++x) for (long y = -3; y <= 3; ++y) for (long z = -3; z <= 3; ++z) {
      const I3 p = {x, y, z}; if (!fits(p)) continue;
      std::map<std::array<unsigned, 3>, int> f; long n = 0;
      for (auto &t : te) if (t.isActive() && insph(P[t.v[0]], P[t.v[1]], P[t.v[2]], P[t.v[3]], p) > 0) { ++n;
        for (int k = 0; k < 4; ++k) { std::array<unsigned, 3> a = {t.v[(k + 1) % 4], t.v[(k + 2) % 4], t.v[(k + 3) % 4]}; std::sort(a.begin(), a.end()); f[a]++; } }
      long h = 0; for (auto &a : f) h += a.second == 1; if (n - h > sc) { sc = n - h; best = p; }
    }
    return best;
  }
  bool add(Rng &R, const I3 &p) {
    if (!fits(p)) return false;
    auto h = hits(p); if (h.empty()) return false;
    const unsigned it = h[R((int) h.size())], ip = (unsigned) po.size();
    dfm2::CDynPointTet q; q.p = pos(p); q.e = UINT_MAX; q.poel = UINT_MAX; po.push_back(q); P.push_back(p);
    dfm2::AddPointTetDelaunay(ip, it, po, te, ce, tb);
    std::vector<std::array<unsigned, 4>> v, a; std::vector<unsigned> e, d; std::vector<std::vector<long>> c; bool clean = true;
    for (auto &t : te) { v.push_back({t.v[0], t.v[1], t.v[2], t.v[3]}); a.push_back({t.s[0], t.s[1], t.s[2], t.s[3]}); }
    for (auto &x : po) { e.push_back(x.e); d.push_back(x.poel); }
    for (int x : tb) if (x != -1) clean = false;
    for (size_t i = 0; i < te.size(); ++i) { // twice the sixfold volume times the centre is integer
      std::vector<long> r; const unsigned *w = te[i].v;
      if (te[i].isActive() && i < ce.size() && w[0] < P.size() && w[1] < P.size() && w[2] < P.size() && w[3] < P.size()) {
        const double D = 2.0 * std::labs(vol6(P[w[0]], P[w[1]], P[w[2]], P[w[3]]));
        const V x = (ce[i] - o) / s; for (double y : {x.x, x.y, x.z}) r.push_back(RX(y * D, 1, 1e-2));
      }
      c.push_back(r);
    }
    J("Ins").arr("p", p).kv("it", it).arr2("v", v).arr2("s", a).arr("e", e).arr("d", d).kv("clean", clean).kv("nce", (unsigned long) ce.size()).arr2("ce", c).emit();
    return true;
  }
  void query(Rng &R, int n) {
    const bool c0 = dfm2::CheckTet(te, po), c1 = dfm2::CheckTet(te);
    J("Check").kv("a", c0).kv("b", c1).emit();
    bool all = true; for (auto &t : te) all = all && t.isActive();
    if (all) { // references made afresh
      auto p2 = po; for (auto &x : p2) { x.e = R(5); x.poel = 9; }
      const bool r = dfm2::MakeOneTetSurNo(te, p2); std::vector<unsigned> e, d; for (auto &x : p2) { e.push_back(x.e); d.push_back(x.poel); }
      J("One").kv("r", r).arr("e", e).arr("d", d).emit();
    }
    for (int q = 0; q < n; ++q) {
      const unsigned it = R((int) te.size()); if (!te[it].isActive()) continue;
      { const unsigned k = R(4); dfm2::ElemAroundPoint ea; if (R(2)) { ea.e[77] = 3; ea.is_inner = R(2); }
        const bool r = dfm2::MakeElemAroundPoint(ea, it, k, te);
        std::vector<std::array<int, 2>> l; for (auto &x : ea.e) l.push_back({x.first, x.second});
        J("Star").kv("it", it).kv("k", k).kv("r", r).arr2("l", l).kv("inner", ea.is_inner).kv("n", ea.size()).emit(); }
      { const int k = R(12); dfm2::ElemAroundEdge ea; if (R(2)) { ea.e.push_back({5, 5}); ea.n.push_back(9); ea.is_inner = R(2); }
        const bool r = dfm2::MakeElemAroundEdge(ea, it, k, te);
        std::vector<unsigned> l; for (auto &x : ea.e) l.push_back(x.first);
        J("Edge").kv("it", it).kv("a", dfm2::dEdge2Noel[k][0]).kv("b", dfm2::dEdge2Noel[k][1]).kv("r", r).arr("l", l).arr("ring", ea.n).kv("nod", ea.nod).kv("nou", ea.nou)
            .kv("inner", ea.is_inner).kv("n", ea.size()).emit(); }
      if (s == 1 && o.x == 0) { std::vector<long> ar, no;
        for (int f = 0; f < 4; ++f) { const double x = dfm2::TriArea((int) it, f, te, po); ar.push_back(RX(4 * x * x, 1, 1e-5));
          V w; dfm2::Normal(w, it, f, te, po); for (double y : {w.x, w.y, w.z}) no.push_back(EX(y)); }
        const double l2 = dfm2::SquareLongestEdgeLength((int) it, po, te), l1 = dfm2::LongestEdgeLength((int) it, po, te);
        const double m2 = dfm2::SquareShortestEdgeLength((int) it, po, te), m1 = dfm2::ShortestEdgeLength((int) it, po, te);
        const double cr = dfm2::Circumradius((int) it, po, te), sq = dfm2::SquareCircumradius(po[te[it].v[0]].p, po[te[it].v[1]].p, po[te[it].v[2]].p, po[te[it].v[3]].p);
        const double rad = dfm2::Distance3(ce[it], po[te[it].v[0]].p);
        J("Size").kv("it", it).kv("vol", RX(dfm2::TetVolume((int) it, te, po), 6, 1e-6)).arr("ar", ar).arr("no", no)
            .kv("l2", EX(l2)).kv("l1", RX(l1 * l1, 1, 1e-6)).kv("m2", EX(m2)).kv("m1", RX(m1 * m1, 1, 1e-6))
            .kv("rad", std::fabs(cr - rad) < 1e-6 * rad && std::fabs(sq - rad * rad) < 1e-6 * sq).emit(); }
    }
  }
};
static int sg(double x) { return x > 0 ? 1 : (x < 0 ? -1 : 0); }
static void spheres(Rng &R, long w) {
  I3 q[5]; for (auto &x : q) x = {R.range(-w, w), R.range(-w, w), R.range(-w, w)};
  if (R(4) == 0) for (auto &x : q) { const long z = R(3); x[z] = (x[z] >= 0 ? 1 : -1) * w; x[(z + 1) % 3] = 0; x[(z + 2) % 3] = 0; } // one common sphere
  if (R(5) == 0) q[4] = q[R(4)];
  if (vol6(q[0], q[1], q[2], q[3]) == 0) return;
  std::vector<V> p; std::vector<long> f; for (auto &x : q) { p.push_back(V((double) x[0], (double) x[1], (double) x[2])); for (long y : x) f.push_back(y); }
  const int d3 = sg(dfm2::DetDelaunay3D(p[0], p[1], p[2], p[3], p[4])), d4 = sg(dfm2::DetDelaunay3D(4, 0, 1, 2, 3, {p[1], p[2], p[3], p[4], p[0]}));
  int rel = -1, back = -1;
  J("Sphere").arr("q", f).kv("d", d3).kv("d4", d4).kv("t", dfm2::DetDelaunay(p[0], p[1], p[2], p[4])).kv("u", dfm2::DetDelaunay<double>(p[0], p[1], p[2], p[4])).emit(); (void) rel; (void) back;
}
int main(int argc, char **argv) {
  init(argc, argv);
  auto beh = read_lines(input_path);
  static const double SC[] = {1, 1, 0.125, 0.37, 3.7};
  const size_t B = 4;
  for (size_t z0 = 0; z0 < beh.size(); z0 += B) run_case([&] {
    for (size_t z = z0; z < std::min(beh.size(), z0 + B); ++z) {
      Rng R(seed * 131 + z); Mesh m; m.s = SC[z % 5]; if (z % 7 == 3) m.o = V(0.5, -1, 2); m.init(8);
      for (size_t i = 0; i + 2 < beh[z].size(); i += 3) if (m.add(R, {beh[z][i], beh[z][i + 1], beh[z][i + 2]})) m.query(R, 1);
    }
  });
  const int N = thorough ? 600 : 60;
  for (int c = 0; c < N; ++c) run_case([=] {
    Rng R(seed * 71 + c); Mesh m; m.s = SC[c % 5]; if (c % 7 == 3) m.o = V(0.5, -1, 2);
    const long L = 12, w = R.range(2, 8); const int style = R(5); const long hh = R.range(1, 3); m.init(L);
    const int n = style == 4 ? R.range(14, 24) : (thorough ? R.range(4, 26) : R.range(4, 16)); int tries = 0;
    const I3 dir = {R.range(-2, 2), R.range(-2, 2), R.range(-2, 2)};
    for (int k = 0; k < n && tries < 2000; ++tries) {
      I3 p = {R.range((int) -w, (int) w), R.range((int) -w, (int) w), R.range((int) -w, (int) w)};
      if (style == 1) p[2] = R(2);                                     // nearly in a plane
      if (style == 2) for (int j = 0; j < 3; ++j) p[j] = k * dir[j] / 2 + R(2); // along a line
      if (style == 3 && dot(p, p) < w * w - 3) continue;                // a shell, then its middle
      if (style == 3 && k == n - 1) p = {R(2), R(2), R(2)};
      if (style == 4) { const long t = R.range(-5, 5); p = k % 2 ? I3{t, R(6) ? 0 : 1, -hh} : I3{R(6) ? 0 : 1, t, hh}; if (k >= n - 3) p = m.greedy(); } // two crossing rows, then points whose hole has more tetrahedra than faces
      if (m.add(R, p)) { ++k; m.query(R, k % 3 == 0 ? 2 : 0); }
    }
    m.query(R, 8);
    for (int k = 0; k < 12; ++k) spheres(R, R.range(1, 5));
  });
  return 0;
}
