#include <algorithm>
#include "vh.h"
#include "delfem2/cad2.h"
#include "geo2h.h"
using namespace delfem2; using namespace vh;
typedef std::vector<std::array<long, 2>> LP;
static std::string s2(const LP &v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += J::str(v[i]); } return r + "]"; }
static std::string s3(const std::vector<LP> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += s2(v[i]); } return r + "]"; }
static std::array<long, 2> vp(const CVec2d &v, double s = 1) { return {EX(v.x, s), EX(v.y, s)}; }
static void st(J &j, const CCad2D &c) {
  LP e, pos, p0, p1; std::vector<LP> le; std::vector<unsigned> lv; std::vector<std::vector<unsigned>> f;
  for (auto &x : c.topo.edges) e.push_back({IX(x.iv0), IX(x.iv1)});
  for (auto &x : c.topo.loops) { lv.push_back(x.iv); le.emplace_back(); for (auto &u : x.aIE) le.back().push_back({IX(u.first), (long) u.second}); }
  for (auto &x : c.topo.faces) f.push_back(x.aIL);
  for (auto &x : c.aVtx) pos.push_back(vp(x.pos)); for (auto &x : c.aEdge) { p0.push_back(vp(x.p0)); p1.push_back(vp(x.p1)); }
  j.kv("nv", c.topo.num_vertex).raw("e", s2(e)).arr("lv", lv).raw("le", s3(le)).arr2("f", f).raw("pos", s2(pos)).raw("p0", s2(p0)).raw("p1", s2(p1)).emit(); }
static void query(const CCad2D &c) {
  std::vector<std::vector<unsigned>> vf, fv, fe; std::vector<LP> ef; LP ep;
  for (unsigned f = 0; f < c.topo.faces.size(); ++f) { vf.push_back(c.topo.VertexIndexs_Face(f)); ef.emplace_back(); for (auto &u : c.topo.EdgeIndexes_Face(f)) ef.back().push_back({IX(u.first), (long) u.second}); }
  for (unsigned v = 0; v < c.topo.num_vertex; ++v) fv.push_back(c.topo.FindFaceIndexes_IncludeVeretx(v));
  for (unsigned e = 0; e < c.topo.edges.size(); ++e) { fe.push_back(c.topo.FindFaceIndexes_IncludeEdge(e)); auto p = c.topo.VertexIndexs_EdgeEndPoints(e); ep.push_back({IX(p.first), IX(p.second)}); }
  auto bb = c.MinMaxXYZ(); std::vector<long> b4 = {EX(bb[0]), EX(bb[1]), EX(bb[2]), EX(bb[3])};
  J("Query").arr2("vf", vf).raw("ef", s3(ef)).arr2("fv", fv).arr2("fe", fe).raw("ep", s2(ep)).arr("bb", b4).kv("ok", c.Check()).emit(); }
static Poly mkpoly(Rng &g, int n, int k) { Poly p; while (!randpoly(g, n, 0, 6, 0, 6, p)); for (auto &q : p) { q[0] = q[0] * 64 + 500 * k; q[1] = q[1] * 64; } if (g(3) && area2(p) < 0) std::reverse(p.begin(), p.end()); return p; }
static std::vector<CCad2D_EdgeGeo> edges_of(const Poly &p) { std::vector<CCad2D_EdgeGeo> r; for (size_t i = 0; i < p.size(); ++i) { CCad2D_EdgeGeo e; auto a = p[i], b = p[(i + 1) % p.size()]; e.p0 = CVec2d(a[0], a[1]); e.p1 = CVec2d(b[0], b[1]); r.push_back(e); } return r; }
static void op(CCad2D &c, int k, int a, Rng &g, int npoly) {
  if (k == 1) { Poly p = mkpoly(g, a, npoly); LP in; for (auto &q : p) in.push_back({q[0], q[1]});
    if (g(3)) { std::vector<double> xy; for (auto &q : p) { xy.push_back(q[0]); xy.push_back(q[1]); } c.AddPolygon(xy); } else c.AddFace(edges_of(p));
    J j("Poly"); j.raw("in", s2(in)); st(j, c); }
  if (k == 2) { P2 q = {g(900), g(400)}; if (a < (int) c.aEdge.size() && g(2)) { auto &e = c.aEdge[a]; q = {(int) (e.p0.x + e.p1.x) / 2, (int) (e.p0.y + e.p1.y) / 2}; }
    c.AddVtxEdge(q[0], q[1], a); J j("VtxEdge"); j.kv("ie", a).arr("q", q); st(j, c); }
  if (k == 3) { P2 q = {g(900), g(400)}; c.AddVtxFace(q[0], q[1], a); J j("VtxFace"); j.kv("if", a).arr("q", q); st(j, c); }
}
static void drag(CCad2D &c, Rng &g) {
  Cad2_Ui ui; P2 fr = {g(900), g(400)}; if (!c.aVtx.empty() && g(2)) { auto &v = c.aVtx[g(c.aVtx.size())].pos; fr = {(int) v.x + g(20) - 10, (int) v.y + g(20) - 10}; }
  P2 to = {fr[0] + g(200) - 100, fr[1] + g(200) - 100}; int mode = g(4);
  if (mode < 3) { int r2 = g(400); ui.Pick(fr[0], fr[1], 20 * std::sqrt(r2 + 0.5), c);
    J("Pick").arr("q", fr).kv("r2", r2).kv("iv", ui.ivtx_picked).kv("ie", ui.iedge_picked).emit(); }
  else if (!c.topo.faces.empty()) ui.iface_picked = g(c.topo.faces.size());
  ui.DragPicked(c, to[0], to[1], fr[0], fr[1]);
  J j("Drag"); j.kv("iv", ui.ivtx_picked).kv("ie", ui.iedge_picked).kv("ifc", ui.iface_picked).arr("fr", fr).arr("to", to); st(j, c); }
static std::vector<LP> sample(const std::vector<CCad2D_EdgeGeo> &L) { std::vector<LP> r; for (auto &e : L) { LP s; s.push_back(vp(e.p0, 64)); auto m = e.GenMesh(4); for (size_t i = 0; i < m.size() / 3; ++i) s.push_back({EX(m[i * 3], 64), EX(m[i * 3 + 1], 64)}); s.push_back(vp(e.p1, 64)); r.push_back(s); } return r; }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  if (!input_path.empty()) for (auto &v : read_lines(input_path)) run_case([&] {
    Rng g(seed * 37 + cur_case); CCad2D c; { J j("Clear"); st(j, c); } int np = 0;
    for (size_t i = 0; i + 1 < v.size(); i += 2) { op(c, v[i], v[i + 1], g, np); if (v[i] == 1) ++np; query(c); }
    if (cur_case % 3 == 0) { drag(c, g); drag(c, g); query(c); } });
  int nr = thorough ? 4000 : 400;
  for (int i = 0; i < nr; ++i) run_case([&] {
    Rng g(seed * 911 + i); CCad2D c; { J j("Clear"); st(j, c); } int np = 0, n = 3 + g(20);
    for (int k = 0; k < n; ++k) { int o = g(10);
      if (k == 0 || (o < 2 && np < 5)) { op(c, 1, 3 + g(6), g, np); ++np; }
      else if (o < 6) op(c, 2, g(c.aEdge.size() + (g(8) == 0)), g, np);
      else if (o < 8) op(c, 3, g(c.topo.faces.size() + (g(8) == 0)), g, np);
      else if (o < 9) drag(c, g);
      else if (g(12) == 0) { c.Clear(); np = 0; J j("Clear"); st(j, c); op(c, 1, 3, g, 0); np = 1; }
      if (g(3) == 0) query(c); } query(c); });
  int nl = thorough ? 4000 : 400;
  for (int i = 0; i < nl; ++i) run_case([&] { // loops of straight and curved edges
    Rng g(seed * 613 + i); { CCad2D c; J j("Clear"); st(j, c); } Poly p; int n = 3 + g(4); bool lines = g(2);
    while (!randpoly(g, n, 0, 12, 0, 12, p)); if (g(3) == 0) p.insert(p.begin() + g(p.size()), p[g(p.size())]); if (g(3) == 0) { int k = g(p.size()); p.insert(p.begin() + k, p[k]); }
    auto L = edges_of(p);
    if (!lines) for (auto &e : L) { int t = g(3); CVec2d a(g(12), g(12)), b(g(12), g(12)); if (t == 1) e.SetQuadraticBezierCurve(a); if (t == 2) e.SetCubicBezierCurve(a, b); }
    auto I = InvertLoop(L), Z = RemoveEdgeWithZeroLength(L);
    J("Invert").kv("lines", lines).raw("a", s3(sample(L))).raw("b", s3(sample(I))).raw("z", s3(sample(Z))).kv("area2", lines ? EX(AreaLoop(L), 2) : 0).kv("ainv2", lines ? EX(AreaLoop(I), 2) : 0).emit(); });
}
