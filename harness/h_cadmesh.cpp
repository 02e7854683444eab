#include <algorithm>
#include <map>
#include "vh.h"
#include "delfem2/cad2.h"
#include "delfem2/cad2_mesher.h"
#include "geo2h.h"
using namespace delfem2; using namespace vh;
typedef std::vector<std::array<long, 2>> LP;
static std::string s2(const LP &v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += J::str(v[i]); } return r + "]"; }
static std::string s3(const std::vector<LP> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += s2(v[i]); } return r + "]"; }
static std::array<long, 2> vp(const CVec2d &v, double s = 1) { return {EX(v.x, s), EX(v.y, s)}; }
static void sketch(const CCad2D &c) {
  J j("Sketch"); LP e, pos; std::vector<LP> le; std::vector<unsigned> lv; std::vector<std::vector<unsigned>> f;
  for (auto &x : c.topo.edges) e.push_back({IX(x.iv0), IX(x.iv1)});
  for (auto &x : c.topo.loops) { lv.push_back(x.iv); le.emplace_back(); for (auto &u : x.aIE) le.back().push_back({IX(u.first), (long) u.second}); }
  for (auto &x : c.topo.faces) f.push_back(x.aIL);
  for (auto &x : c.aVtx) pos.push_back(vp(x.pos));
  j.kv("nv", c.topo.num_vertex).raw("e", s2(e)).arr("lv", lv).raw("le", s3(le)).arr2("f", f).raw("pos", s2(pos)).emit(); }
static const int S = 840;
struct Sk { CCad2D c; std::vector<Poly> outline; };
static bool distinct(const CCad2D &c, P2 q) { for (auto &v : c.aVtx) if ((int) v.pos.x == q[0] && (int) v.pos.y == q[1]) return false; return true; }
static bool op(Sk &k, int o, int a, Rng &g) {
  if (o == 1) { Poly p; while (!randpoly(g, a, 0, 5, 0, 5, p)); if (area2(p) < 0) std::reverse(p.begin(), p.end());
    int ox = g(3) ? 60 * (int) k.outline.size() : g(40), oy = g(3) ? 0 : g(20); for (auto &q : p) { q[0] = q[0] * 8 + ox; q[1] = q[1] * 8 + oy; }
    std::vector<double> xy; for (auto &q : p) { xy.push_back(q[0]); xy.push_back(q[1]); } k.c.AddPolygon(xy); k.outline.push_back(p); return true; }
  if (o == 2) { auto e = k.c.topo.edges[a]; P2 p = {(int) k.c.aVtx[e.iv0].pos.x, (int) k.c.aVtx[e.iv0].pos.y}, q = {(int) k.c.aVtx[e.iv1].pos.x, (int) k.c.aVtx[e.iv1].pos.y};
    if ((p[0] + q[0]) % 2 || (p[1] + q[1]) % 2) return false; k.c.AddVtxEdge((p[0] + q[0]) / 2, (p[1] + q[1]) / 2, a); return true; }
  for (int t = 0; t < 100; ++t) { auto &p = k.outline[a]; P2 q = {g(300), g(100)}; q = {p[g(p.size())][0] + g(21) - 10, p[g(p.size())][1] + g(21) - 10};
    bool on = false; for (size_t i = 0; i < p.size(); ++i) on |= onseg(p[i], p[(i + 1) % p.size()], q);
    if (on || !inpoly(p, q) || !distinct(k.c, q)) continue; k.c.AddVtxFace(q[0], q[1], a); return true; }
  return false; }
static void mesh(Sk &k, CMesher_Cad2D &m, Rng &g, const std::vector<int> &nd) {
  const CCad2D &c = k.c; m.mapIdEd_NDiv.clear(); std::vector<int> want(c.aEdge.size(), 0); int len = 0, inner = 0;
  int mode = g(4); static const int ok[] = {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 15};
  if (nd.empty() && mode == 0) { m.edge_length = -1; for (auto &w : want) w = 20; }
  else { int ls[] = {4, 8, 16, 40, 100}; len = ls[g(5)]; m.edge_length = len; inner = 1;
    for (size_t e = 0; e < c.aEdge.size(); ++e) { if (!nd.empty()) want[e] = nd[e % nd.size()]; else if (mode == 1) want[e] = ok[g(12)]; else if (mode == 2 && g(3) == 0) want[e] = 1 + g(3);
      else { int n = (int) (c.aEdge[e].ArcLength() / len + 1); bool bad = false; for (int q = std::max(1, n - 1); q <= n + 1; ++q) if (S % q) bad = true; if (bad) want[e] = 1 + g(4); }
      if (want[e]) m.mapIdEd_NDiv[e] = want[e]; } }
  CMeshDynTri2D d; if (g(2)) { CCad2D c0; c0.AddPolygon({0, 0, 9, 0, 0, 9}); auto mm = m.mapIdEd_NDiv; m.Meshing(d, c0); m.mapIdEd_NDiv = mm; }
  m.Meshing(d, c);
  LP xy; std::vector<std::array<unsigned, 3>> t, ss; std::vector<unsigned> pe, pd; bool pos = true;
  for (auto &v : d.aVec2) xy.push_back({RX(v.x, S, 1e-5), RX(v.y, S, 1e-5)});
  for (auto &q : d.aETri) { t.push_back({q.v[0], q.v[1], q.v[2]}); ss.push_back({q.s2[0], q.s2[1], q.s2[2]}); auto &a = d.aVec2[q.v[0]], &b = d.aVec2[q.v[1]], &e = d.aVec2[q.v[2]]; if (!((b.x - a.x) * (e.y - a.y) - (b.y - a.y) * (e.x - a.x) > 0)) pos = false; }
  for (auto &p : d.aEPo) { pe.push_back(p.e); pd.push_back(p.d); }
  std::vector<std::vector<long>> ep, er; for (auto &e : m.edge_point) { ep.emplace_back(); er.emplace_back(); for (auto &p : e) { ep.back().push_back(IX(p.first)); er.back().push_back(RX(p.second, S, 1e-6)); } }
  std::vector<long> n = {(long) m.nvtx, (long) m.nedge, (long) m.nface};
  J("Mesh").kv("s", S).kv("len", len).kv("inner", inner).kv("pos", pos).arr("want", want).arr("n", n).raw("xy", s2(xy)).arr2("tri", t).arr2("s2", ss).arr("pe", pe).arr("pd", pd).arr2("ep", ep).arr2("er", er).arr("fp", m.aFlgPnt).arr("ft", m.aFlgTri).emit();
  for (unsigned e = 0; e < c.aEdge.size(); ++e) for (int en = 0; en < 2; ++en) { std::vector<unsigned> s = {e}; J("Select").kv("kind", 0).kv("end", en).arr("sel", s).arr("out", m.IndPoint_IndEdge(e, en, c)).emit(); }
  for (int r = 0; r < 4; ++r) { std::vector<int> s; for (unsigned e = 0; e < c.aEdge.size(); ++e) if (g(2)) s.push_back(e); if (g(2)) std::reverse(s.begin(), s.end()); J("Select").kv("kind", 1).arr("sel", s).arr("out", m.IndPoint_IndEdgeArray(s, c)).emit(); }
  int nf = c.topo.faces.size(); for (int r = 0; r < (1 << std::min(nf, 3)); ++r) { std::vector<int> s; for (int f = 0; f < nf; ++f) if (r >> f & 1) s.push_back(f); J("Select").kv("kind", 2).arr("sel", s).arr("out", m.IndPoint_IndFaceArray(s, c)).emit(); }
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  if (!input_path.empty()) for (auto &v : read_lines(input_path)) run_case([&] { // nh, (op, arg)*, nd*
    Rng g(seed * 41 + cur_case); Sk k; size_t nh = v[0]; bool ok = true;
    for (size_t i = 0; i < nh && ok; ++i) ok = op(k, v[1 + 2 * i], v[2 + 2 * i], g);
    if (!ok) return; sketch(k.c); CMesher_Cad2D m; mesh(k, m, g, std::vector<int>(v.begin() + 1 + 2 * nh, v.end())); });
  int nr = thorough ? 3000 : 250;
  for (int i = 0; i < nr; ++i) run_case([&] {
    Rng g(seed * 1511 + i); Sk k; CMesher_Cad2D m; int n = 1 + g(9);
    for (int q = 0; q < n; ++q) { int o = g(8); if (q == 0 || (o < 2 && k.outline.size() < 4)) op(k, 1, 3 + g(5), g); else if (o < 5) op(k, 2, g(k.c.aEdge.size()), g); else op(k, 3, g(k.outline.size()), g);
      if (q == n / 2 && g(2)) { sketch(k.c); mesh(k, m, g, {}); } }
    sketch(k.c); mesh(k, m, g, {}); });
}
