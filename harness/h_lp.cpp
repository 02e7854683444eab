// C18: linear programs
#include "vh.h"
#include <algorithm>
#include <iostream>
#include "delfem2/lp.h"
using namespace delfem2; using namespace vh;
typedef std::vector<double> VD;
static long frac(const VD &v, std::vector<long> &p) { for (long q = 1; q <= 6000; ++q) { bool ok = true; p.clear(); for (double x : v) { double y = x * q, z = std::rint(y); if (!(std::fabs(y - z) < 1e-7 * q) || std::fabs(z) > 1e6) { ok = false; break; } p.push_back((long) z); } if (ok) return q; } p.clear(); return 0; }
static const int LIM = 400;
struct Prog { CLinPro lp; Rng &r; unsigned nv = 0; explicit Prog(Rng &r_) : r(r_) { J("New").emit(); }
  void row(std::vector<long> a, long b, int k) { if (r(3) == 0) while (a.size() > 1 && a.back() == 0) a.pop_back(); lp.AddEqn(VD(a.begin(), a.end()), (double) b, k == 0 ? CLinPro::LE : k == 1 ? CLinPro::GE : CLinPro::EQ); nv = std::max<unsigned>(nv, a.size()); J("Row").arr("a", a).kv("b", b).kv("k", k).emit(); }
  bool pre() { int n = LIM; int ret = lp.Precomp(n); std::vector<long> p; long q = 0; if (ret == 0) q = frac(lp.GetValid(), p); J("Pre").kv("ret", ret).kv("nitr", n).kv("lim", LIM - 1).kv("q", q).arr("x", p).emit(); return ret == 0; }
  void solve(std::vector<long> c) { c.resize(std::min<size_t>(c.size(), nv)); if (r(3) == 0) while (c.size() > 1 && c.back() == 0) c.pop_back(); int n = LIM; VD s; if (r(2)) s.assign(r(7), 3.); double v = 0; s.resize(r(2) ? nv : s.size() > nv ? nv : s.size()); int ret = lp.Solve(s, v, n, VD(c.begin(), c.end())); std::vector<long> p; long q = 0, vv = BAD; if (ret == 0) { q = frac(s, p); if (q) vv = RX(v, (double) q, 1e-4); } J("Solve").arr("o", c).kv("ret", ret).kv("nitr", n).kv("lim", LIM - 1).kv("q", q).arr("x", p).kv("v", vv).emit(); } };
static std::vector<long> vec(Rng &r, int n, int m) { std::vector<long> v; while (n--) v.push_back(r.range(-m, m)); return v; }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  for (auto &v : read_lines(input_path)) run_case([&] { Rng r(seed * 131 + cur_case); int n = v[0], m = v[1]; Prog P(r); size_t k = 2; for (int i = 0; i < m; ++i) { std::vector<long> a(v.begin() + k, v.begin() + k + n); P.row(a, v[k + n], v[k + n + 1]); k += n + 2; } if (P.pre()) { static const long o[4][2] = {{1, 0}, {1, 1}, {1, -1}, {-1, 2}}; for (auto &c : o) P.solve({c[0], c[1]}); } });
  int nr = thorough ? 4000 : 500;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 577 + cur_case); Prog P(r); int n = 1 + r(4), M = 1 + r(4), big = 1 + r(3); bool feas = r(2); std::vector<long> x; for (int i = 0; i < n; ++i) x.push_back(r(4)); int m = 0, zero = r(3);
    for (int t = 0; t < 3; ++t) { int add = t == 0 ? M : 1 + r(2); for (int k = 0; k < add && m < 6; ++k, ++m) { auto a = vec(r, n, big); int kind = r(5); kind = kind < 2 ? 0 : kind < 4 ? 1 : 2; long s = 0; for (int i = 0; i < n; ++i) s += a[i] * x[i]; long b = zero == 0 ? 0 : r.range(-4, 6); if (feas && !(zero == 0 && r(2))) b = kind == 0 ? s + r(3) * r(4) : kind == 1 ? s - r(3) * r(4) : s; P.row(a, b, kind); if (r(8) == 0 && m + 1 < 6) { ++m; std::vector<long> a2 = a; for (long &q : a2) q *= 2; P.row(a2, 2 * b, kind); } }
      bool ok = P.pre(); if (r(4) == 0) ok = P.pre(); if (ok) for (int k = 0; k < 3; ++k) P.solve(vec(r, P.nv, 3)); } });
}
