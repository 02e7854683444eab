#include <algorithm>
#include "vh.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/dtri3_v3dtri.h"
#include "geo2h.h"
using namespace delfem2; using namespace vh;
static long orient(P2 a, P2 b, P2 c) { return long(b[0]-a[0])*(c[1]-a[1]) - long(b[1]-a[1])*(c[0]-a[0]); }
struct M {
  std::vector<CDynPntSur> P; std::vector<CDynTri> T; std::vector<CVec2d> V; std::vector<std::pair<unsigned, unsigned>> cut; bool in3 = false; bool isdel = true; std::vector<bool> onrim;
  J &st(J &j) const {
    std::vector<std::array<long, 2>> xy; std::vector<std::array<unsigned, 3>> t, s2; std::vector<unsigned> pe, pd;
    for (auto &v : V) xy.push_back({EX(v.x), EX(v.y)});
    for (auto &q : T) { t.push_back({q.v[0], q.v[1], q.v[2]}); s2.push_back({q.s2[0], q.s2[1], q.s2[2]}); }
    for (auto &p : P) { pe.push_back(p.e); pd.push_back(p.d); }
    return j.arr2("xy", xy).arr2("tri", t).arr2("s2", s2).arr("pe", pe).arr("pd", pd); }
  P2 pt(unsigned i) const { return {(int) V[i].x, (int) V[i].y}; }
  void restore(unsigned ip, const char *ev = "Restore") {
    if (!in3) DelaunayAroundPoint(ip, P, T, V);
    else { std::vector<CVec3d> W; for (auto &v : V) W.emplace_back(v.y, 7., v.x); DelaunayAroundPoint(ip, P, T, W); }
    J j(ev); j.kv("v", ip); st(j).emit(); }
  unsigned insert(P2 q) {
    const unsigned ip = V.size(); V.emplace_back((double) q[0], (double) q[1]); P.emplace_back(); P[ip].e = UINT_MAX; P[ip].d = 0;
    AddPointsMesh(V, P, T, ip, 1.0e-10);
    { J j("Insert"); j.kv("v", ip); st(j).emit(); }
    restore(ip); return ip; }
  bool has(P2 q) const { for (unsigned i = 0; i < V.size(); ++i) if (pt(i) == q) return true; return false; }
  bool live(unsigned i) const { for (auto &t : T) for (unsigned k : t.v) if (k == i) return true; return false; }
  bool force(unsigned a, unsigned b) { // only segments that run freely through the current region
    if (a == b || !live(a) || !live(b)) return false;
    // EnforceEdge turns around a: the faces at a must still hang together (rim or one earlier cut at most)
    { int sectors = 0; for (auto &t : T) for (int k = 0; k < 3; ++k) if (t.v[k] == a && t.s2[(k + 1) % 3] == UINT_MAX) ++sectors; if (sectors > 1) return false; }
    for (unsigned i = 0; i < V.size(); ++i) if (i != a && i != b && onseg(pt(a), pt(b), pt(i))) return false;
    for (auto &t : T) for (int k = 0; k < 3; ++k) if (t.s2[k] == UINT_MAX) { unsigned c = t.v[(k + 1) % 3], d = t.v[(k + 2) % 3];
      if ((c == a && d == b) || (c == b && d == a)) return false;
      P2 pc = pt(c), pd = pt(d), pa = pt(a), pb = pt(b); if (c == a || c == b || d == a || d == b) continue; if (segmeet(pa, pb, pc, pd)) return false; }
    // both ends must see each other inside the region: the super triangle is convex, cuts are checked above
    EnforceEdge(P, T, a, b, V);
    J j("Force"); j.kv("a", a).kv("b", b); st(j).emit(); return true; }
};
static void start(M &m, int G, bool in3) {
  m.in3 = in3; double S[6] = {-2, -2, 2. * G + 4, -2, -2, 2. * G + 4}; unsigned t[3] = {0, 1, 2};
  for (int i = 0; i < 3; ++i) m.V.emplace_back(S[2 * i], S[2 * i + 1]);
  InitializeMesh(m.P, m.T, t, 1, 3); J j("Start"); m.st(j).emit(); }
static void finish(M &m, Rng &g, int nf) {
  int done = 0; for (int t = 0; t < 12 * nf && done < nf; ++t) done += m.force(g(m.V.size()), g(m.V.size()));
  if (g(2)) { // try to close a loop: force the sides of a random triangle of vertices
    unsigned a = g(m.V.size()), b = g(m.V.size()), c = g(m.V.size()); if (a > 2 && b > 2 && c > 2) { m.force(a, b); m.force(b, c); m.force(c, a); } }
  if (m.T.empty()) return;
  for (int rep = 0; rep < 2; ++rep) {
    std::vector<int> fl(m.T.size(), 0); int nk = 1 + g(2), mark = g(3) ? 1 : -5;
    for (int k = 0; k < nk; ++k) { unsigned ker = g(m.T.size()); FlagConnected(fl, m.T, ker, mark); J("Flag").kv("ker", ker).kv("mark", mark).kv("first", k == 0).arr("fl", fl).emit(); }
    int del = g(2) ? mark : 0; DeleteTriFlag(m.T, fl, del);
    { // vertex references are only meaningful after the vertices have been cleaned up
      std::vector<std::array<unsigned, 3>> t, s2; for (auto &q : m.T) { t.push_back({q.v[0], q.v[1], q.v[2]}); s2.push_back({q.s2[0], q.s2[1], q.s2[2]}); }
      J("DelTri").kv("del", del).arr2("tri", t).arr2("s2", s2).arr("fl", fl).emit(); }
    std::vector<int> pf(m.V.size(), 0); std::vector<unsigned> dl; int pm = 2;
    bool keepsome = g(3) == 0; for (unsigned i = 0; i < m.V.size(); ++i) if (!m.live(i) && !(keepsome && g(2))) { pf[i] = pm; dl.push_back(i); } else pf[i] = 10 + i % 3;
    if (g(2)) { DeletePointsFlag(m.V, m.P, m.T, pf, pm); J j("DelPts"); j.arr("del", dl).arr("pf", pf); m.st(j).emit(); }
    else { if (g(2)) std::reverse(dl.begin(), dl.end()); DeleteUnrefPoints(m.V, m.P, m.T, dl); J j("DelPts"); j.arr("del", dl).arr("pf", std::vector<int>()); m.st(j).emit(); }
    if (m.T.size() < 2 || g(2)) break; }
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  if (!input_path.empty()) for (auto &v : read_lines(input_path)) run_case([&] {
    Rng g(seed * 31 + cur_case); M m; start(m, 4, cur_case % 2); for (size_t i = 0; i + 1 < v.size(); i += 2) m.insert({(int) v[i] * 2, (int) v[i + 1] * 2}); finish(m, g, 1 + g(4)); });
  int nr = thorough ? 5000 : 500;
  for (int i = 0; i < nr; ++i) run_case([&] {
    Rng g(seed * 1009 + i); int Gs[] = {2, 3, 4, 4, 6, 8, 12, 20, 48}; int G = Gs[g(9)]; int n = 3 + g(std::min(22, (G + 1) * (G + 1) - 3)); M m; start(m, G, g(2));
    int style = g(4); P2 c = {g(G + 1), g(G + 1)};
    for (int k = 0, t = 0; k < n && t < 10 * n; ++t) { P2 q = {g(G + 1), g(G + 1)};
      if (style == 1 && g(3)) q[0] = c[0]; if (style == 2 && g(3)) { q[0] = c[0] + (q[1] - c[1]); if (q[0] < 0 || q[0] > G) continue; }
      if (m.has(q)) continue; m.insert(q); ++k; }
    finish(m, g, g(8)); });
  int nb = thorough ? 2000 : 200;
  for (int i = 0; i < nb; ++i) run_case([&] { // refinement of a region: a box with interior points, its rim stays
    Rng g(seed * 2003 + i); int W = 2 + g(5), H = 2 + g(5), s = 8; M m; m.in3 = false;
    double S[8] = {0, 0, double(W * s), 0, double(W * s), double(H * s), 0, double(H * s)}; unsigned t[6] = {0, 1, 2, 0, 2, 3};
    for (int k = 0; k < 4; ++k) m.V.emplace_back(S[2 * k], S[2 * k + 1]);
    InitializeMesh(m.P, m.T, t, 2, 4); { J j("Start"); m.st(j).emit(); }
    int n = g(6); for (int k = 0; k < n; ++k) { P2 q = {s * g(W + 1), s * g(H + 1)}; if (!m.has(q)) m.insert(q); }
    for (int rep = 0; rep < 3; ++rep) { CCmdRefineMesh cmd;
      if (rep == 0 || g(3)) { // edges longer than a bound around a point
        int l2 = s * s * (1 + g(6)), px = g(W * s), py = g(H * s), r9 = g(3) ? 9 * s * s * (1 + g(W * H)) : 1000000;
        RefinementPlan_EdgeLongerThan_InsideCircle(cmd, std::sqrt(l2 + 0.5), px, py, std::sqrt((r9 + 0.5) / 9.), m.P, m.V, m.T);
        std::vector<std::array<long, 2>> es; bool half = true; for (auto &e : cmd.aCmdEdge) { es.push_back({e.ipo0, e.ipo1}); if (e.r0 != 0.5) half = false; }
        J("Plan").kv("l2", l2).kv("px", px).kv("py", py).kv("r9", r9).kv("half", half).arr2("es", es).emit();
      } else { std::vector<std::pair<int, int>> E; for (auto &t : m.T) for (int k = 0; k < 3; ++k) { int a = t.v[k], b = t.v[(k + 1) % 3]; if (g(4) == 0) E.emplace_back(std::min(a, b), std::max(a, b)); }
        std::sort(E.begin(), E.end()); E.erase(std::unique(E.begin(), E.end()), E.end()); for (auto &e : E) if (g(2)) cmd.aCmdEdge.emplace_back(e.first, e.second, .5); else cmd.aCmdEdge.emplace_back(e.second, e.first, .5); }
      bool ok = m.V.size() + cmd.aCmdEdge.size() < 60; for (auto &e : cmd.aCmdEdge) { P2 a = m.pt(e.ipo0), b = m.pt(e.ipo1); if ((a[0] + b[0]) % 2 || (a[1] + b[1]) % 2) ok = false; }
      if (!ok) break;
      RefineMesh(m.P, m.T, m.V, cmd);
      std::vector<std::array<long, 3>> es; for (auto &e : cmd.aCmdEdge) es.push_back({e.ipo0, e.ipo1, e.ipo_new});
      { J j("Refine"); j.arr2("es", es); m.st(j).emit(); }
      std::vector<double> val(m.V.size()); for (size_t k = 0; k < val.size(); ++k) val[k] = 2. * (k % 7); // interpolation of values along with the points
      std::vector<long> v0, v1; for (double x : val) v0.push_back(EX(x)); cmd.Interpolate(val.data(), val.size(), 1); for (double x : val) v1.push_back(EX(x, 64));
      J("Interp").arr2("es", es).arr("v0", v0).arr("v1", v1).emit(); }
  });
  int nd = thorough ? 4000 : 700;
  for (int i = 0; i < nd; ++i) run_case([&] { // restoration around any vertex of any triangulation, starting from any of its faces
    Rng g(seed * 4001 + i); int G = 4 + g(9); M m; start(m, G, g(2)); int n = 3 + g(10);
    for (int k = 0; k < n; ++k) { P2 q = {g(G + 1), g(G + 1)}; if (!m.has(q)) m.insert(q); }
    if (g(3) == 0) { int fl = g(4); for (int t = 0; t < 20 && fl > 0; ++t) fl -= m.force(g(m.V.size()), g(m.V.size())); }
    for (int rep = 0; rep < 4; ++rep) {
      int nf = 1 + g(3 * n);
      for (int k = 0; k < nf; ++k) { unsigned t = g(m.T.size()), e = g(3), u = m.T[t].s2[e]; if (u == UINT_MAX) continue;
        unsigned a = m.T[t].v[e], b = m.T[t].v[(e + 1) % 3], c = m.T[t].v[(e + 2) % 3], d = UINT_MAX; for (unsigned x : m.T[u].v) if (x != b && x != c) d = x;
        if (orient(m.pt(a), m.pt(b), m.pt(d)) <= 0 || orient(m.pt(a), m.pt(d), m.pt(c)) <= 0) continue;
        FlipEdge(t, e, m.P, m.T); }
      { J j("Perturb"); m.st(j).emit(); }
      for (int r2 = 0; r2 < 3; ++r2) {
        unsigned v = g(4) == 0 ? g(3) : g(m.V.size()); std::vector<std::pair<unsigned, unsigned>> inc; int sectors = 0;
        for (unsigned t = 0; t < m.T.size(); ++t) for (unsigned k = 0; k < 3; ++k) if (m.T[t].v[k] == v) { inc.emplace_back(t, k); if (m.T[t].s2[(k + 1) % 3] == UINT_MAX) ++sectors; }
        if (inc.empty() || sectors > 1) continue;
        auto p = inc[g(inc.size())]; m.P[v].e = p.first; m.P[v].d = p.second;
        m.restore(v, "Around"); } } });
}
