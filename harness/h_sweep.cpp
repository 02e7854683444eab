// C13: shortest-path sweeps and clustering on graphs of elements and points
#include "vh.h"
#include <set>
#include <map>
#include <algorithm>
#include "delfem2/dijkstra.h"
#include "delfem2/clusterpoints.h"
#include "delfem2/msh_topology_uniform.h"
using namespace delfem2; using namespace vh;
typedef std::vector<unsigned> VU; typedef std::array<int, 3> I3;
struct Graph { unsigned n = 0; std::vector<VU> nb; std::vector<std::vector<int>> len; std::vector<I3> x; };
struct Proc { VU visit; std::vector<int> inc; bool IsIncludeElem(unsigned i) { return inc[i]; } void AddElem(unsigned i, std::vector<unsigned> &o) { visit.push_back(o[i] == visit.size() ? i : 77777); } void AddPoint(unsigned i, std::vector<unsigned> &o) { AddElem(i, o); } };
static bool conn(const Graph &g) { std::set<unsigned> s{0}; VU st{0}; while (!st.empty()) { unsigned i = st.back(); st.pop_back(); for (unsigned j : g.nb[i]) if (s.insert(j).second) st.push_back(j); } return s.size() == g.n; }
// sites whose mutual distances are all whole numbers
static const I3 SITE[] = {{0, 0, 0}, {5, 0, 0}, {9, 0, 0}, {16, 0, 0}, {-5, 0, 0}, {-9, 0, 0}, {-16, 0, 0}, {0, 12, 0}, {0, -12, 0}};
static const I3 SITE2[] = {{0, 0, 0}, {35, 0, 0}, {-35, 0, 0}, {0, 12, 0}, {16, 0, 0}, {9, 0, 0}};
static void place(Graph &g, Rng &r) {
  int kind = r(3), ax = r(3), bx = (ax + 1 + r(2)) % 3; g.x.assign(g.n, I3{0, 0, 0}); std::vector<int> pm(9); for (int i = 0; i < 9; ++i) pm[i] = i; for (int i = 8; i > 0; --i) std::swap(pm[i], pm[r(i + 1)]);
  for (unsigned i = 0; i < g.n; ++i) { I3 p{0, 0, 0}; if (kind == 0 && g.n <= 9) { const I3 &s = SITE[pm[i]]; p[ax] = s[0]; p[bx] = s[1]; } else if (kind == 1) p[ax] = r(12); else { int c = r(4); p[ax] = (c & 1) * 3 + 0; p[bx] = (c >> 1) * 4; } g.x[i] = p; }
  g.len.resize(g.n); for (unsigned i = 0; i < g.n; ++i) { g.len[i].clear(); for (unsigned j : g.nb[i]) { double s = 0; for (int a = 0; a < 3; ++a) s += (double) (g.x[i][a] - g.x[j][a]) * (g.x[i][a] - g.x[j][a]); g.len[i].push_back((int) EX(std::sqrt(s))); } } }
static std::vector<long> dd(const std::vector<double> &d) { std::vector<long> r; for (double x : d) r.push_back(EX(x)); return r; }
template<class V> static void dirty(V &v, Rng &r) { if (r(2)) v.assign(r(9), 3); }
static void all(Graph &g, Rng &r) {
  { VU pm(g.n); for (unsigned i = 0; i < g.n; ++i) pm[i] = i; for (unsigned i = g.n; i-- > 1;) std::swap(pm[i], pm[r(i + 1)]); std::vector<VU> nb(g.n); for (unsigned i = 0; i < g.n; ++i) { for (unsigned j : g.nb[i]) nb[pm[i]].push_back(pm[j]); auto &v = nb[pm[i]]; for (size_t k = v.size(); k-- > 1;) std::swap(v[k], v[r(k + 1)]); } g.nb = nb; }
  place(g, r); J("Graph").arr2("nb", g.nb).arr2("len", g.len).emit(); unsigned n = g.n; size_t ned = 1; for (auto &v : g.nb) ned = std::max(ned, v.size()); ned += r(3) == 0;
  VU adj(n * ned, UINT_MAX); for (unsigned i = 0; i < n; ++i) { size_t o = 0, m = g.nb[i].size(), skip = ned - m; for (size_t k = 0; k < m; ++k) { while (skip && r(2)) { ++o; --skip; } adj[i * ned + o++] = g.nb[i][k]; } }
  VU ind(1, 0), psup; for (auto &v : g.nb) { psup.insert(psup.end(), v.begin(), v.end()); ind.push_back(psup.size()); }
  bool c = conn(g); VU order, dist; std::vector<double> dst;
  if (c) { dirty(order, r); dirty(dist, r); unsigned s = r(n); DijkstraElem_MeshElemTopo(dist, order, s, adj, n); J("Topo").kv("s", s).arr("dist", dist).arr("order", order).emit(); }
  { unsigned s = r(n); Proc p; bool full = r(2); for (unsigned i = 0; i < n; ++i) p.inc.push_back(full || r(4) || i == s); unsigned nn = 1 + r(4); double sc = r(2) ? .25 : 1; std::vector<double> X; VU el; std::vector<unsigned> id;
    for (unsigned i = 0; i < n; ++i) { I3 q{r(3) * 2, r(3) * 2, r(3) * 2}; for (unsigned k = 0; k < nn; ++k) { int sg = nn == 1 ? 0 : nn == 2 ? 1 - 2 * (int) k : nn == 3 ? (k == 0 ? 1 : k == 1 ? -1 : 0) : (k % 2 ? 1 : -1); el.push_back(X.size() / 3); for (int a = 0; a < 3; ++a) X.push_back((g.x[i][a] + sg * q[a]) * sc); } }
    dirty(order, r); dirty(dst, r); DijkstraElem_MeshElemGeo3(dst, order, p, s, el, n, X, adj); for (auto &d : dst) if (d >= 0) d /= sc; J("Geo").kv("s", s).arr("inc", p.inc).arr("dist", dd(dst)).arr("order", order).arr("visit", p.visit).emit(); }
  if (c) { unsigned s = r(n); Proc p; std::vector<double> X; for (auto &x : g.x) for (int v : x) X.push_back(v); dirty(order, r); dirty(dst, r); DijkstraPoint_MeshTri3D(dst, order, p, s, X, ind, psup); J("Point").kv("s", s).arr("dist", dd(dst)).arr("order", order).arr("visit", p.visit).emit(); }
  { Proc p; VU flg; int k = 1 + r(3); for (unsigned i = 0; i < n; ++i) flg.push_back(r(4) ? 0 : r(k)); unsigned f = r(4) ? 0 : r(k); dirty(order, r); dirty(dist, r); Dijkstra_FillFromBoundary(order, dist, p, f, flg, adj); J("Fill").kv("f", f).kv("ned", ned).arr("flg", flg).arr("dist", dist).arr("order", order).arr("visit", p.visit).emit(); }
  if (c) for (int t = 0; t < 2; ++t) { unsigned m = 1 + r(std::min(n, 4u)); VU flg; dirty(flg, r); MeshClustering(flg, m, adj, n); J("Cluster").kv("ncl", m).arr("flg", flg).emit(); }
  { std::vector<double> area, X, N; std::vector<int> ia; std::vector<I3> nr; int ma = r(3) ? 1 + r(5) : 1; for (unsigned i = 0; i < n; ++i) { ia.push_back(1 + r(ma)); area.push_back(ia[i]); I3 v{0, 0, 0}; v[r(3)] = 1; nr.push_back(v); for (int a = 0; a < 3; ++a) { X.push_back(g.x[i][a]); N.push_back(v[a]); } }
    VU map(n, 5u); unsigned np = BinaryClustering_Points2d(map.data(), n, area.data(), ind.data(), psup.data()); J("Bin2").kv("np", np).arr("map", map).emit();
    std::vector<double> X1, A1, N1; VU mp; dirty(X1, r); dirty(A1, r); dirty(N1, r); dirty(mp, r); BinaryClustering_Points3d(X1, A1, N1, mp, X, area, N, ind, psup);
    size_t n1 = A1.size(); std::vector<std::array<long, 3>> xa, nn; std::vector<long> a1; for (size_t i = 0; i < n1; ++i) { a1.push_back(EX(A1[i])); std::array<long, 3> u, w; for (int a = 0; a < 3; ++a) { u[a] = i * 3 + a < X1.size() ? RX(X1[i * 3 + a] * A1[i], 1, 1e-6) : BAD; w[a] = i * 3 + a < N1.size() ? std::lrint(N1[i * 3 + a] * 1000) : BAD; } xa.push_back(u); nn.push_back(w); }
    J("Bin3").kv("np", n1).arr("map", mp).arr("area", ia).arr2("x", g.x).arr2("nrm", nr).arr("area1", a1).arr2("xa1", xa).arr2("n1", nn).emit();
    for (int t = 0; t < 2; ++t) { size_t k = n1; if (t) { k = 1 + r(n + 1); for (auto &m : mp) m = r(k); } VU i1, p1; dirty(i1, r); dirty(p1, r); Clustering_Psup(i1, p1, k, n, mp.data(), ind.data(), psup.data()); J("Psup").kv("np", k).arr("map", mp).arr("ind", i1).arr("psup", p1).emit(); } } }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  for (auto &v : read_lines(input_path)) run_case([&] { Rng r(seed * 131 + cur_case); Graph g; g.n = v[0]; g.nb.resize(g.n); size_t o = 1; for (unsigned i = 0; i < g.n; ++i) for (unsigned j = i + 1; j < g.n; ++j) if (v[o++]) { g.nb[i].push_back(j); g.nb[j].push_back(i); } all(g, r); });
  int nr = thorough ? 3000 : 400;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 577 + cur_case); Graph g; g.n = 2 + r(13); g.nb.resize(g.n); std::set<std::pair<unsigned, unsigned>> E; if (r(3)) for (unsigned k = 1; k < g.n; ++k) E.insert({(unsigned) (r(2) ? k - 1 : r(k)), k}); int m = r(2 * g.n); while (m--) { unsigned a = r(g.n), b = r(g.n); if (a < b) E.insert({a, b}); } for (auto &e : E) { g.nb[e.first].push_back(e.second); g.nb[e.second].push_back(e.first); } all(g, r); });
  for (int i = 0; i < nr / 4; ++i) run_case([&] { Rng r(seed * 353 + cur_case); unsigned w = 1 + r(4), h = 1 + r(3), x = w + 1; VU T; for (unsigned j = 0; j < h; ++j) for (unsigned k = 0; k < w; ++k) { if (r(8) == 0 && T.size()) continue; unsigned a = j * x + k; for (unsigned q : {a, a + 1, a + x + 1, a, a + x + 1, a + x}) T.push_back(q); }
    VU adj; ElSuEl_MeshElem(adj, T.data(), T.size() / 3, MESHELEM_TRI, x * (h + 1)); Graph g; g.n = T.size() / 3; g.nb.resize(g.n); for (unsigned e = 0; e < g.n; ++e) for (int k = 0; k < 3; ++k) if (adj[e * 3 + k] != UINT_MAX) g.nb[e].push_back(adj[e * 3 + k]); all(g, r); });
}
