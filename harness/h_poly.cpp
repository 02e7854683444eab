#include <algorithm>
#include "vh.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/geo_polygon2.h"
#include "geo2h.h"
using namespace delfem2; using namespace vh;
typedef std::vector<Poly> Loops;
static void jl(J &j, const char *k, const Loops &L) { std::string s = "["; for (size_t i = 0; i < L.size(); ++i) { if (i) s += ","; J t(""); t.s.clear(); t.arr2("", L[i]); s += t.s.substr(t.s.find('[')); } j.raw(k, s + "]"); }
static std::vector<std::vector<int>> split(const std::vector<int> &ind, const std::vector<int> &v) {
  std::vector<std::vector<int>> r; for (size_t i = 0; i + 1 < ind.size(); ++i) r.emplace_back(v.begin() + ind[i], v.begin() + ind[i + 1]); return r; }
static std::vector<std::vector<double>> aaxy(const Loops &L) {
  std::vector<std::vector<double>> r; for (auto &l : L) { r.emplace_back(); for (auto &q : l) { r.back().push_back(q[0]); r.back().push_back(q[1]); } } return r; }
static void mesh_out(J &j, const std::vector<CDynPntSur> &P, const std::vector<CDynTri> &T, const std::vector<CVec2d> &V, double s, bool rounded) {
  std::vector<std::array<long, 2>> xy; std::vector<std::array<unsigned, 3>> t, s2; std::vector<unsigned> pe, pd;
  for (auto &v : V) xy.push_back(rounded ? std::array<long, 2>{RX(v.x, s, 1e-5), RX(v.y, s, 1e-5)} : std::array<long, 2>{EX(v.x), EX(v.y)});
  bool pos = true;
  for (auto &q : T) { t.push_back({q.v[0], q.v[1], q.v[2]}); s2.push_back({q.s2[0], q.s2[1], q.s2[2]});
    if (q.v[0] < V.size() && q.v[1] < V.size() && q.v[2] < V.size()) { auto &a = V[q.v[0]], &b = V[q.v[1]], &c = V[q.v[2]];
      if (!((b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) > 0)) pos = false; } }
  for (auto &p : P) { pe.push_back(p.e); pd.push_back(p.d); }
  j.arr2("xy", xy).arr2("tri", t).arr2("s2", s2).arr("pe", pe).arr("pd", pd).kv("pos", pos);
}
static bool g_face = false;
// every added point is then a multiple of 1/840 (recording is exact)
static bool exact_resampling(const Loops &L, double len) { for (auto &l : L) for (size_t i = 0; i < l.size(); ++i) {
  auto a = l[i], b = l[(i + 1) % l.size()]; int n = (int) (std::sqrt(double((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]))) / len);
  for (int m = n; m <= n + 2; ++m) if (m > 0 && 840 % m) return false; } return true; }
static void one(const Loops &L, bool checkonly, int len4, bool dirty) {
  std::vector<int> ind, lip; std::vector<CVec2d> V; JArray_FromVecVec_XY(ind, lip, V, aaxy(L));
  { J j("Input"); jl(j, "loops", L); j.arr2("ixs", split(ind, lip)).emit(); }
  { bool r = CheckInputBoundaryForTriangulation(ind, V); J("Check").kv("ret", r).emit(); }
  if (checkonly) return;
  FixLoopOrientation(lip, ind, V); J("Fix").arr2("out", split(ind, lip)).emit();
  std::vector<CDynPntSur> P; std::vector<CDynTri> T;
  if (dirty) { P.resize(3); T.resize(2); for (auto &t : T) for (int k = 0; k < 3; ++k) { t.v[k] = k; t.s2[k] = 1; } }
  { auto V1 = V; Meshing_SingleConnectedShape2D(P, V1, T, ind, lip); J j("Mesh"); mesh_out(j, P, T, V1, 1, false); j.emit(); }
  const double S = 840;
  if (len4 > 0 && exact_resampling(L, len4 / 4.0)) {
    { auto V1 = V; auto i1 = ind, l1 = lip; ResamplingLoop(i1, l1, V1, len4 / 4.0);
      J j("Resample"); j.kv("fixed", 1).kv("s", 840).kv("len", len4).arr2("out", split(i1, l1));
      std::vector<std::array<long, 2>> xy; for (auto &v : V1) xy.push_back({RX(v.x, S, 1e-5), RX(v.y, S, 1e-5)}); j.arr2("xy", xy).emit(); }
    for (int f = 0; f < (g_face ? 2 : 1); ++f) {
      auto P1 = P; auto T1 = T; std::vector<CVec2d> V1; T1.clear();
      GenMesh(P1, T1, V1, aaxy(L), len4 / 4.0, f ? len4 / 4.0 : -1.0);
      if (T1.empty()) { J("None").emit(); } else { J j("Gen"); j.kv("s", 840).kv("len", len4).kv("face", f); mesh_out(j, P1, T1, V1, S, true); j.emit(); } }
  }
}
static void orient(Loops &L, int code) { for (auto &l : L) { if (code & 1) std::reverse(l.begin(), l.end()); code >>= 1; } }
int main(int argc, char **argv) {
  vh::init(argc, argv); g_face = true;
  long n = 0;
  if (!input_path.empty()) for (auto &v : read_lines(input_path)) { ++n; run_case([&] {
    Loops L(1); for (size_t i = 0; i + 1 < v.size(); i += 2) L[0].push_back({(int) v[i], (int) v[i + 1]});
    one(L, false, n % 3 == 0 ? 4 : (n % 3 == 1 ? 0 : 6), n % 2); }); }
  int nr = thorough ? 6000 : 900;
  for (int i = 0; i < nr; ++i) run_case([&] {
    Rng g(seed * 7919 + i); int G = 4 + g(11); Loops L; Poly p;
    int kind = g(4);
    if (kind == 0) { // one outline
      while (!randpoly(g, 3 + g(8), 0, G, 0, G, p)); L.push_back(p);
    } else { // outline with holes; the outline is large, often a box
      if (g(2)) { p = {{0, 0}, {G, 0}, {G, G}, {0, G}}; if (g(2)) p.insert(p.begin() + 1, P2{G / 2, 0}); if (g(2)) p.push_back({0, G / 2}); }
      else while (!randpoly(g, 4 + g(5), 0, G, 0, G, p) || labs(area2(p)) < G * G / 2);
      L.push_back(p); int nh = 1 + g(3);
      for (int t = 0, k = 0; k < nh && t < 300; ++t) { Poly h; int w = 1 + g(std::max(1, G / 2)); int x = g(G), y = g(G);
        if (!randpoly(g, 3 + g(3), x, x + w, y, y + w, h)) continue;
        bool ok = inpoly(p, h[0]); for (auto &q : L) if (polymeet(q, h)) ok = false;
        for (size_t m = 1; m < L.size(); ++m) if (inpoly(L[m], h[0]) || inpoly(h, L[m][0])) ok = false;
        if (ok) { L.push_back(h); ++k; } }
    }
    orient(L, g(16)); for (auto &q : L) std::rotate(q.begin(), q.begin() + g(q.size()), q.end());
    int lens[] = {0, 4, 6, 8, 12, 16, 24, 7}; int le = lens[g(8)];
    one(L, false, le, g(2)); });
  int nc = thorough ? 20000 : 3000;
  for (int i = 0; i < nc; ++i) run_case([&] { // arbitrary loops, for the checker only
    Rng g(seed * 104729 + i); int G = 3 + g(8); Loops L; int nl = 1 + g(3); Poly p;
    for (int k = 0; k < nl; ++k) { if (g(3) || !randpoly(g, 3 + g(4), 0, G, 0, G, p)) { p.clear(); int m = g(12) ? 3 + g(3) : 2; int x = g(G), y = g(G), w = 1 + g(G); for (int q = 0; q < m; ++q) p.push_back({x + g(w), y + g(w)}); } L.push_back(p); }
    if (g(2)) L.insert(L.begin(), Poly{{-1, -1}, {2 * G, -1}, {2 * G, 2 * G}, {-1, 2 * G}});
    one(L, true, 0, false); });
  // systematic for the checker: an outline and two or three loops from a list of shapes (nested, overlapping, touching, apart), in every order
  const std::vector<Poly> sh = {{{0,0},{12,0},{12,12},{0,12}}, {{2,2},{10,2},{10,10},{2,10}}, {{3,3},{5,3},{5,5},{3,5}}, {{7,7},{9,7},{9,9},{7,9}},
    {{4,4},{8,4},{8,8},{4,8}}, {{1,6},{6,1},{11,6},{6,11}}, {{5,5},{6,5},{6,7}}, {{2,1},{10,1},{10,10},{8,10},{8,3},{4,3},{4,10},{2,10}}, {{5,6},{7,6},{6,9}},
    {{-2,5},{3,5},{3,7},{-2,7}}, {{13,3},{15,3},{14,6}}, {{1,1},{11,1},{11,11},{1,11},{1,5},{3,5},{3,9},{9,9},{9,3},{1,3}}, {{2,2},{10,10},{10,2},{2,10}}};
  const int ns = (int) sh.size();
  for (int a = 0; a < ns; ++a) for (int b = 0; b < ns; ++b) for (int c = -1; c < ns; ++c) run_case([&] {
    Rng g(seed * 31 + (a * 20 + b) * 20 + c); if (a == b || a == c || b == c) return;
    Loops L{sh[a], sh[b]}; if (c >= 0) L.push_back(sh[c]); if (c >= 0 && g(4) == 0) L.push_back(sh[g(ns)]);
    orient(L, g(16)); for (auto &q : L) std::rotate(q.begin(), q.begin() + g(q.size()), q.end());
    one(L, true, 0, false); });
  // valid regions with one vertex moved or two loops exchanged
  int nm = thorough ? 6000 : 1200;
  for (int i = 0; i < nm; ++i) run_case([&] {
    Rng g(seed * 15485863 + i); int G = 6 + g(8); Loops L; Poly p; while (!randpoly(g, 4 + g(4), 0, G, 0, G, p) || labs(area2(p)) < G * G / 2); L.push_back(p);
    for (int t = 0, k = 0; k < 2 && t < 200; ++t) { Poly h; int w = 1 + g(3), x = g(G), y = g(G); if (!randpoly(g, 3 + g(2), x, x + w, y, y + w, h)) continue;
      bool ok = inpoly(p, h[0]); for (auto &q : L) if (polymeet(q, h)) ok = false; if (ok) { L.push_back(h); ++k; } }
    int k = g(L.size()), v = g(L[k].size());
    if (g(4) == 0 && L.size() > 1) std::swap(L[g(L.size())], L[g(L.size())]); else { L[k][v] = {g(G + 1), g(G + 1)}; for (size_t m = 0; m < L[k].size(); ++m) if ((int) m != v && L[k][m] == L[k][v]) return; }
    orient(L, g(16)); one(L, true, 0, false); });
}
