#include "vh.h"
#include <set>
#include <map>
#include <algorithm>
#include "delfem2/mshsubdiv.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/msh_primitive.h"
using namespace delfem2; using namespace vh;
typedef std::vector<unsigned int> U; typedef std::vector<int> I;
static U dirt(Rng &g, int d) { U u; if (d) for (int i = 0; i < 1 + g(60); ++i) u.push_back(g(50)); return u; }
static const int S = 14400;
static std::vector<double> rpos(int np, Rng &g) { std::vector<double> x(np * 3); for (auto &v : x) v = (double) S * (g(9) - 4); return x; }
static I ipos(const std::vector<double> &x) { I r; for (double v : x) { double q = std::rint(v); r.push_back(std::fabs(q - v) < 1e-6 && std::fabs(q) < 1e9 ? (int) q : (int) BAD); } return r; }
static void chain(int k, U el, int np, int levels, Rng &g) {
  int nn = k == 3 ? 8 : 4; int nc = k == 2 ? 4 : 8;
  for (int lev = 0; lev < levels; ++lev) {
    std::vector<double> p = rpos(np, g); size_t ne = el.size() / nn;
    if (lev == 0) { std::vector<I> q; for (size_t i = 0; i < ne; ++i) { I x = {k}; for (int j = 0; j < nn; ++j) x.push_back(el[i * nn + j]); q.push_back(x); } J("Mesh").kv("np", np).arr("p", ipos(p)).arr2("els", q).emit(); }
    else J("Pos").arr("p", ipos(p)).emit();
    int d = g(2); U el1 = dirt(g, d), ind = dirt(g, !d), a = dirt(g, d), ef = dirt(g, d);
    if (k == 2) { SubdivTopo_MeshQuad(el1, ind, a, ef, el.data(), ne, np); J("Sub").arr("ind", ind).arr("a", a).arr("ef", ef).arr("f", U()).arr("el", el1).emit(); }
    else if (k == 1) { SubdivTopo_MeshTet(el1, ind, a, el.data(), (int) ne, np); J("Sub").arr("ind", ind).arr("a", a).arr("f", U()).arr("el", el1).emit(); }
    else { SubdivTopo_MeshHex(el1, ind, a, ef, el.data(), ne, np); J("Sub").arr("ind", ind).arr("a", a).arr("f", ef).arr("el", el1).emit(); }
    { std::string s = "["; int n = 0; std::set<unsigned> uq(el.begin(), el.end()); U u(uq.begin(), uq.end());
      for (int i = 0; i < 30; ++i) { unsigned x, y; if (g(2)) { size_t e = g(ne); x = el[e * nn + g(nn)]; y = el[e * nn + g(nn)]; } else { x = g(np); y = g(np); } if (x == y) continue; unsigned r = findEdge(x, y, ind, a); s += (n++ ? "," : "") + J::str(U{x, y, r}); }
      if (n) J("Find").raw("qe", s + "]").emit(); }
    std::vector<double> q(g(20), 3.5);
    size_t np1 = np + a.size();
    if (k == 2) {
      SubdivisionPoints_QuadCatmullClark(q, el1, ef, ind, a, el.data(), ne, p.data(), np); J("Pts").kv("cc", 1).arr("q", ipos(q)).emit();
      I efi(ef.begin(), ef.end()); q.assign(g(20), -7); SubdivPoints3_MeshQuad(q, efi, el, p); J("Pts").kv("cc", 0).arr("q", ipos(q)).emit(); np1 += ne; }
    if (k == 3) { SubdivisionPoints_Hex(q, ind, a, ef, el.data(), ne, p.data(), np); J("Pts").kv("cc", 0).arr("q", ipos(q)).emit(); np1 += ne + ef.size() / 4; }
    el = el1; np = (int) np1; (void) nc;
  }
}
static void relabel(U &el, int &np, Rng &g) { std::vector<unsigned> m(np + g(3)); for (size_t i = 0; i < m.size(); ++i) m[i] = i; for (size_t i = m.size(); i > 1; --i) std::swap(m[i - 1], m[g(i)]); for (auto &v : el) v = m[v]; np = (int) m.size(); }
int main(int argc, char **argv) {
  init(argc, argv); int id = 0;
  for (auto &l : read_lines(input_path)) { ++id; run_case([&]() { Rng g(seed * 7919 + id); size_t i = 0; int k = l[0]; U el; int nn = k == 3 ? 8 : 4; int np = 0; while (i < l.size()) { ++i; for (int j = 0; j < nn; ++j) { el.push_back(l[i]); np = std::max(np, (int) l[i] + 1); ++i; } }
    if (g(3)) relabel(el, np, g); chain(k, el, np, el.size() / nn <= 2 && k != 3 ? 2 : 1, g); }); }
  // grids of elements with holes, closed shells, wrapped grids
  int nr = thorough ? 1600 : 240;
  for (int it = 0; it < nr; ++it) run_case([&]() { Rng g(seed * 104729 + it); int k = 1 + it % 3; U el; int np = 0;
    if (k == 2) { int kind = g(4);
      if (kind == 0) { int a = 1 + g(4), b = 1 + g(3); np = (a + 1) * (b + 1); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) if (g(5)) { unsigned q[4] = {(unsigned) (i + j * (a + 1)), (unsigned) (i + 1 + j * (a + 1)), (unsigned) (i + 1 + (j + 1) * (a + 1)), (unsigned) (i + (j + 1) * (a + 1))}; int r = g(4); for (int t = 0; t < 4; ++t) el.push_back(q[(t + r) % 4]); } }
      else if (kind == 1) { std::vector<double> x; std::vector<unsigned int> q; double lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1}; MeshQuad3_CubeVox(x, q, lo, hi); el = q; np = x.size() / 3; }
      else if (kind == 2) { int a = 3 + g(3), b = 3 + g(2); np = a * b; for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) { unsigned q[4] = {(unsigned) (i + j * a), (unsigned) ((i + 1) % a + j * a), (unsigned) ((i + 1) % a + (j + 1) % b * a), (unsigned) (i + (j + 1) % b * a)}; for (int t = 0; t < 4; ++t) el.push_back(q[t]); } }
      else { int a = 3 + g(4), b = 1 + g(3); np = a * (b + 1); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) { unsigned q[4] = {(unsigned) (i + j * a), (unsigned) ((i + 1) % a + j * a), (unsigned) ((i + 1) % a + (j + 1) * a), (unsigned) (i + (j + 1) * a)}; for (int t = 0; t < 4; ++t) el.push_back(q[t]); } }
    } else if (k == 3) { int n[3] = {1 + g(3), 1 + g(2), 1 + g(2)}; np = (n[0] + 1) * (n[1] + 1) * (n[2] + 1); auto id = [&](int i, int j, int h) { return (unsigned) (i + (n[0] + 1) * (j + (n[1] + 1) * h)); };
      for (int h = 0; h < n[2]; ++h) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) if (g(6)) { unsigned v[8] = {id(i, j, h), id(i + 1, j, h), id(i + 1, j + 1, h), id(i, j + 1, h), id(i, j, h + 1), id(i + 1, j, h + 1), id(i + 1, j + 1, h + 1), id(i, j + 1, h + 1)}; int r = g(4); for (int t = 0; t < 8; ++t) el.push_back(v[(t & 4) + ((t + r) & 3)]); }
    } else { int n[3] = {1 + g(2), 1 + g(2), 1}; np = (n[0] + 1) * (n[1] + 1) * (n[2] + 1); auto id = [&](int i, int j, int h) { return (unsigned) (i + (n[0] + 1) * (j + (n[1] + 1) * h)); };
      static const int T[6][4] = {{0, 1, 3, 7}, {0, 5, 1, 7}, {0, 4, 5, 7}, {0, 6, 4, 7}, {0, 2, 6, 7}, {0, 3, 2, 7}};
      for (int h = 0; h < n[2]; ++h) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) for (auto &t : T) if (g(6)) { unsigned v[4]; for (int q = 0; q < 4; ++q) v[q] = id(i + (t[q] & 1), j + (t[q] >> 1 & 1), h + (t[q] >> 2)); int r = g(3); unsigned w[4] = {v[0], v[1 + r], v[1 + (r + 1) % 3], v[1 + (r + 2) % 3]}; for (auto x : w) el.push_back(x); } }
    if (el.empty()) return; relabel(el, np, g); size_t ne = el.size() / (k == 3 ? 8 : 4);
    chain(k, el, np, (k == 2 && ne <= 9) || (k == 1 && ne <= 3) || (k == 3 && ne == 1) ? 2 + (k == 2 && ne <= 3) : 1, g); });
}
