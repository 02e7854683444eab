// C14: cross sections, contours and the graph of sections
#include "vh.h"
#include <set>
#include <map>
#include <algorithm>
#include "delfem2/slice.h"
#include "delfem2/msh_topology_uniform.h"
using namespace delfem2; using namespace vh;
typedef std::array<unsigned, 3> T3; typedef std::array<int, 3> I3; typedef std::vector<unsigned> VU;
static std::vector<T3> T; static std::vector<int> L, H; static std::vector<I3> X;
static std::vector<T3> base(int m) {
  if (m == 1) return {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
  if (m == 2 || m == 6) { std::vector<T3> t{{0, 1, 3}, {1, 2, 3}, {2, 0, 3}, {1, 0, 4}, {2, 1, 4}, {0, 2, 4}}; if (m == 6) t.erase(t.begin()); return t; }
  if (m == 3 || m == 5) { std::vector<T3> t{{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}, {1, 0, 5}, {2, 1, 5}, {3, 2, 5}, {0, 3, 5}}; if (m == 5) t.erase(t.begin()); return t; }
  std::vector<T3> t; for (unsigned k = 0; k < 7; ++k) { t.push_back({k, (k + 1) % 7, (k + 3) % 7}); t.push_back({k, (k + 3) % 7, (k + 2) % 7}); } return t; }
static void body(Rng &r) { // T, L set; choose order of triangles, rotation, labels, positions, heights
  unsigned nv = L.size(), nt = T.size(); VU pm(nv); for (unsigned i = 0; i < nv; ++i) pm[i] = i; for (unsigned i = nv; i-- > 1;) std::swap(pm[i], pm[r(i + 1)]);
  std::vector<int> l2(nv); for (unsigned i = 0; i < nv; ++i) l2[pm[i]] = L[i]; L = l2; bool fl = r(2); for (auto &t : T) { for (auto &v : t) v = pm[v]; if (fl) std::swap(t[0], t[1]); std::rotate(t.begin(), t.begin() + r(3), t.end()); } for (unsigned i = nt; i-- > 1;) std::swap(T[i], T[r(i + 1)]);
  X.clear(); for (unsigned i = 0; i < nv; ++i) { I3 p; for (int &c : p) c = r.range(-3, 3); X.push_back(p); }
  J("Mesh").arr2("tri", T).arr("lev", L).arr2("x", X).arr("hs", H).emit();
  std::vector<double> xyz, xy, lev, hs; double sc = r(2) ? .5 : 1, of = r(3) ? 0 : -4; for (auto &p : X) { for (int c : p) xyz.push_back(c); xy.push_back(p[0]); xy.push_back(p[1]); } for (int v : L) lev.push_back((v + of) * sc); for (int v : H) hs.push_back((v + of) * sc);
  VU tri, adj; for (auto &t : T) for (auto v : t) tri.push_back(v); ElSuEl_MeshElem(adj, tri.data(), nt, MESHELEM_TRI, nv);
  std::vector<CSliceTriMesh> cs; if (r(2)) cs.assign(2, CSliceTriMesh(7)); Slice_MeshTri3D_Heights(cs, hs, lev, tri, adj);
  auto P3 = [&](const CSegInfo &s, std::vector<long> &a, std::vector<long> &b) { double p[3], q[3]; s.Pos3D(p, q, xyz, tri); a.clear(); b.clear(); for (int k = 0; k < 3; ++k) { a.push_back(RX(p[k], 840, 1e-6)); b.push_back(RX(q[k], 840, 1e-6)); } };
  { std::string s = "["; for (size_t i = 0; i < cs.size(); ++i) { VU t; std::vector<std::vector<long>> A, B; for (unsigned k = 0; k < cs[i].NumSeg(); ++k) { t.push_back(cs[i].IndTri_Seg(k)); std::vector<long> a, b; P3(cs[i].aTriInfo[k], a, b); A.push_back(a); B.push_back(b); }
      J j("x"); j.s = "{\"z\":0"; j.kv("h", cs[i].IndHeight()).arr("tri", t).arr2("a", A).arr2("b", B); s += (i ? "," : "") + j.s + "}"; } J("Slice").raw("cs", s + "]").emit(); }
  { std::vector<std::set<unsigned>> con; if (r(2)) con.assign(3, {0, 1}); MakeReebGraph(con, cs, tri, adj); J("Reeb").arr2("con", con).emit(); }
  for (int k = 0; k < 2; ++k) { int h = r.range(0, 5); std::vector<CSegInfo> sg; size_t pre = r(3); for (size_t i = 0; i < pre; ++i) { CSegInfo z{}; z.itri = 1000 + i; sg.push_back(z); } AddContour(sg, (h + of) * sc, tri.data(), nt, lev.data());
    bool kept = sg.size() >= pre; for (size_t i = 0; i < pre && kept; ++i) kept = sg[i].itri == (int) (1000 + i); VU t; std::vector<std::vector<long>> A, B; for (size_t i = pre; i < sg.size(); ++i) { t.push_back(sg[i].itri); std::vector<long> a, b; if (sg[i].iedA < 0 || sg[i].iedA > 2 || sg[i].iedB < 0 || sg[i].iedB > 2) { a = b = {BAD, BAD, BAD}; } else { P3(sg[i], a, b); double p[2], q[2]; sg[i].Pos2D(p, q, xy.data(), tri.data()); for (int d = 0; d < 2; ++d) { if (RX(p[d], 840, 1e-6) != a[d]) a[d] = BAD; if (RX(q[d], 840, 1e-6) != b[d]) b[d] = BAD; } } A.push_back(a); B.push_back(b); }
    J("Cont").kv("h", h).kv("kept", kept).arr("tri", t).arr2("a", A).arr2("b", B).emit(); } }
static void heights(Rng &r, int mx) { H.clear(); if (r(8) == 0) return; int h = r.range(0, 2); do { H.push_back(h); h += 1 + r(3); } while (h <= mx && r(4)); if (r(6) == 0) std::reverse(H.begin(), H.end()); }
static void refine(Rng &r, int n) { // splits of faces and flips of edges keep the surface closed and simple
  unsigned nv = 0; for (auto &t : T) for (auto v : t) nv = std::max(nv, v + 1);
  for (int k = 0; k < n; ++k) { if (r(2)) { T3 t = T[r(T.size())]; auto it = std::find(T.begin(), T.end(), t); T.erase(it); T.push_back({t[0], t[1], nv}); T.push_back({t[1], t[2], nv}); T.push_back({t[2], t[0], nv}); ++nv; }
    else for (int q = 0; q < 3; ++q) { size_t i = r(T.size()); int c = r(3); unsigned a = T[i][c], b = T[i][(c + 1) % 3], p = T[i][(c + 2) % 3]; size_t j = 0; int d = 0; bool f = false; for (; j < T.size() && !f; j += !f) for (d = 0; d < 3; ++d) if (T[j][d] == b && T[j][(d + 1) % 3] == a) { f = true; break; }
      if (!f) continue; unsigned s = T[j][(d + 2) % 3]; bool ex = p == s; for (auto &t : T) for (int e = 0; e < 3; ++e) ex |= (t[e] == p && t[(e + 1) % 3] == s) || (t[e] == s && t[(e + 1) % 3] == p); if (ex) continue; T[i] = {p, a, s}; T[j] = {s, b, p}; } } }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  for (auto &v : read_lines(input_path)) run_case([&] { Rng r(seed * 131 + cur_case); T = base(v[0]); L.assign(v.begin() + 1, v.end()); if (r(3) == 0) for (int &x : L) x *= 2; heights(r, 5); body(r); });
  int nr = thorough ? 6000 : 700;
  for (int i = 0; i < nr; ++i) run_case([&, i] { Rng r(seed * 577 + cur_case); T = base(i % 4 == 3 ? 4 : 1 + r(3)); refine(r, 2 + r(thorough ? 16 : 10));
    if (r(4) == 0) { unsigned o = 0; for (auto &t : T) for (auto v : t) o = std::max(o, v + 1); for (auto t : base(1 + r(4))) T.push_back({t[0] + o, t[1] + o, t[2] + o}); }
    if (i % 5 == 0) for (int k = 1 + r(3); k--;) T.erase(T.begin() + r(T.size()));
    unsigned nv = 0; for (auto &t : T) for (auto v : t) nv = std::max(nv, v + 1); L.assign(nv, 0); int mode = r(3), mx = mode == 2 ? 8 : 3 + r(6);
    if (mode == 2) { // smooth levels: neighbours differ little
      std::vector<int> d(nv, -1); unsigned s = T[r(T.size())][0]; d[s] = 0; for (bool ch = true; ch;) { ch = false; for (auto &t : T) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (d[t[a]] >= 0 && (d[t[b]] < 0 || d[t[b]] > d[t[a]] + 1)) { d[t[b]] = d[t[a]] + 1; ch = true; } } for (unsigned k = 0; k < nv; ++k) L[k] = std::min(8, (d[k] < 0 ? r(5) : d[k]) * 2 + (r(4) == 0)); }
    else for (auto &x : L) { x = r(mx + 1); if (mode == 1) x = x / 2 * 2; }
    heights(r, mx); if (mode == 1) for (int &h : H) h = h * 2 + 1; body(r); });
  // spheres of many rows (each triangle between two rows), with hills
  for (int i = 0; i < nr / 3; ++i) run_case([&] { Rng r(seed * 353 + cur_case); unsigned w = 3 + r(3), h = 2 + r(4); T.clear(); for (unsigned j = 0; j + 1 < h; ++j) for (unsigned k = 0; k < w; ++k) { unsigned a = j * w + k, b = j * w + (k + 1) % w, c = a + w, d = b + w; T.push_back({a, b, d}); T.push_back({a, d, c}); } unsigned s = w * h; for (unsigned k = 0; k < w; ++k) { T.push_back({(k + 1) % w, k, s}); T.push_back({(h - 1) * w + k, (h - 1) * w + (k + 1) % w, s + 1}); }
    L.clear(); for (unsigned j = 0; j < h; ++j) for (unsigned k = 0; k < w; ++k) L.push_back(std::min(8, (int) j + 1 + (r(3) == 0) + (r(5) == 0) * 2)); L.push_back(0); L.push_back(r(2) ? std::min<int>(8, h + 1) : r(4)); H.clear(); for (int k = r(2); k < 8; k += 1 + r(3)) H.push_back(k); if (r(4) == 0) for (int k = 2; k--;) T.erase(T.begin() + r(T.size())); body(r); });
}
