#include "vh.h"
#include <set>
#include <algorithm>
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/msh_topology_mix.h"
#include "delfem2/jagarray.h"
using namespace delfem2; using namespace vh;
typedef std::vector<unsigned int> U; typedef std::vector<int> I;
struct El { int k; I v; };
typedef std::vector<El> Mesh;
static void emesh(const Mesh &m, int np, bool full = true) { std::vector<I> q; if (full) for (auto &e : m) { I x = {e.k}; x.insert(x.end(), e.v.begin(), e.v.end()); q.push_back(x); } J("Mesh").kv("np", np).arr2("els", q).emit(); }
static U dirt(Rng &g, int d) { U u; if (d) for (int i = 0; i < 1 + g(40); ++i) u.push_back(g(50)); return u; }
static I dirti(Rng &g, int d) { I u; if (d) for (int i = 0; i < 1 + g(40); ++i) u.push_back(g(50) - 3); return u; }
static void ja(const char *ev, const U &ind, const U &a) { J(ev).arr("ind", ind).arr("a", a).emit(); }
static void jag(const char *op, const U &i0, const U &a0, const U &ind, const U &a) { J("Jagged").ks("op", op).arr("ind0", i0).arr("a0", a0).arr("ind", ind).arr("a", a).emit(); }
static void jagged(const U &ind, const U &a, Rng &g, int d, bool noself) {
  { U b = a; JArray_Sort(ind, b); jag("sort", ind, a, ind, b); }
  { U b = a; JArray_Sort(ind.data(), ind.size() - 1, b.data()); jag("sort", ind, a, ind, b); }
  { U x = dirt(g, d), y = dirt(g, d); JArray_AddDiagonal(x, y, ind.data(), ind.size(), a.data(), a.size()); jag("diag", ind, a, x, y); }
  { U x = dirt(g, d), y = dirt(g, d); JArray_Extend(x, y, ind.data(), ind.size(), a.data()); jag("extend", ind, a, x, y); }
  if (noself) { U x = dirt(g, d), y = dirt(g, d); JArrayEdgeUnidir_PointSurPoint(x, y, ind, a); jag("unidir", ind, a, x, y); }
}
static bool manifold_tri(const Mesh &m) { std::set<std::pair<int, int>> s; for (auto &e : m) for (int i = 0; i < 3; ++i) if (!s.insert({e.v[i], e.v[(i + 1) % 3]}).second) return false; return true; }
static bool closed_tri(const Mesh &m, int np) { std::set<std::pair<int, int>> s; std::set<int> u; for (auto &e : m) for (int i = 0; i < 3; ++i) { s.insert({e.v[i], e.v[(i + 1) % 3]}); u.insert(e.v[i]); } for (auto &p : s) if (!s.count({p.second, p.first})) return false; return (int) u.size() == np; }
static void uniform(const Mesh &m, int np, Rng &g) {
  emesh(m, np); MESHELEM_TYPE t = (MESHELEM_TYPE) m[0].k; int nn = nNodeElem(t); size_t ne = m.size(); U e; for (auto &x : m) for (int v : x.v) e.push_back(v);
  U ei, ea; JArray_ElSuP_MeshElem(ei, ea, e.data(), ne, nn, np); ja("ElSuP", ei, ea);
  int d = g(2);
  { U x = dirt(g, 1), y = dirt(g, 1); if (t == MESHELEM_TRI && g(2)) JArray_ElSuP_MeshTri(x, y, e, np); else JArray_ElSuP_MeshElem(x, y, e.data(), ne, nn, np); ja("ElSuP", x, y); }
  U psi, psa;
  { psi = dirt(g, d); psa = dirt(g, d); JArray_PSuP_MeshElem(psi, psa, e.data(), ne, nn, np); ja("PSuP", psi, psa);
    U x = dirt(g, !d), y = dirt(g, !d); JArrayPointSurPoint_MeshOneRingNeighborhood(x, y, e.data(), ei, ea, nn, np); ja("PSuP", x, y); }
  U see = dirt(g, d); ElSuEl_MeshElem(see, e.data(), ne, t, np); J("ElSuEl").arr("a", see).emit();
  { U x = dirt(g, !d); ElSuEl_MeshElem(x, e.data(), ne, nn, ei, ea, nFaceElem(t), nNodeElemFace(t, 0), noelElemFace(t)); J("ElSuEl").arr("a", x).emit(); }
  if (t <= MESHELEM_HEX) for (int both = 0; both < 2; ++both) { U x = dirt(g, d), y = dirt(g, d); JArrayEdge_MeshElem(x, y, e.data(), t, ei, ea, both); J("Edges").kv("both", both).arr("ind", x).arr("a", y).emit(); }
  if (t <= MESHELEM_HEX) { U x = dirt(g, d); MeshLine_MeshElem(x, e.data(), ne, t, np); J("Lines").arr("a", x).emit(); }
  jagged(psi, psa, g, d, true);
  { U x = dirt(g, d), y = dirt(g, d); JArrayEdgeUnidir_PointSurPoint(x, y, psi, psa); ja("Unidir", x, y); JArrayEdgeUnidir_PointSurPoint(x, y, psi, psa); ja("Unidir", x, y);
    if (t == MESHELEM_TRI) { U z = dirt(g, d); MeshLine_JArrayEdge(z, x, y); J("Lines").arr("a", z).emit(); } }
  if (t == MESHELEM_TRI) { bool man = manifold_tri(m);
    if (man) { U x = dirt(g, d); ElemQuad_DihedralTri(x, e.data(), ne, np); J("Dihedral").arr("a", x).emit(); }
    U f = e; FlipElement_Tri(f); J("FlipTri").arr("a", f).emit();
    U adj; for (size_t i = 0; i < see.size(); ++i) adj.push_back(see[i] == UINT_MAX ? UINT_MAX : FindAdjEdgeIndex(i / 3, i % 3, see[i], e.data())); J("AdjEdge").arr("el", see).arr("a", adj).emit();
    if (man && closed_tri(m, np)) { I x = dirti(g, d), y = dirti(g, d), ti(e.begin(), e.end()), sr, ii(ei.begin(), ei.end()), aa(ea.begin(), ea.end()); for (size_t i = 0; i < see.size(); ++i) { sr.push_back(see[i]); sr.push_back(adj[i]); }
      makeOneRingNeighborhood_TriFan(x, y, ti, sr, ii, aa, np); J("Ring").arr("ind", x).arr("a", y).emit(); } }
  if (t == MESHELEM_QUAD) { U x = dirt(g, d); convert2Tri_Quad(x, e); J("Quad2Tri").arr("a", x).emit(); }
}
static void group_u(const Mesh &m, int np, Rng &g) {
  emesh(m, np); MESHELEM_TYPE t = (MESHELEM_TYPE) m[0].k; int nn = nNodeElem(t); size_t ne = m.size(); U e; for (auto &x : m) for (int v : x.v) e.push_back(v);
  U see; ElSuEl_MeshElem(see, e.data(), ne, t, np); int n = -7; U f = dirt(g, g(2)); MakeGroupElem(n, f, e, see, nFaceElem(t), nn); J("Group").kv("n", n).arr("a", f).emit();
  bool sym = true; int nf = nFaceElem(t); for (size_t i = 0; i < ne; ++i) for (int k = 0; k < nf; ++k) { unsigned j = see[i * nf + k]; if (j == UINT_MAX) continue; bool b = false; for (int q = 0; q < nf; ++q) b |= see[j * nf + q] == i; sym &= b; }
  if (sym) { U a0; for (size_t i = 0; i < ne; ++i) a0.push_back(10 + g(3)); U a = a0; int from = g(ne); a0 = a; MarkConnectedElements(a, from, 99, see); J("Mark").kv("from", from).kv("flag", 99).arr("a0", a0).arr("a", a).emit(); }
}
static void mixed(const Mesh &m, int np, Rng &g) {
  emesh(m, np, false); CElemMixed c; size_t i = 0;
  while (i < m.size()) { size_t j = i + 1; while (j < m.size() && m[j].k == m[i].k && g(3)) ++j; I in; for (size_t q = i; q < j; ++q) in.insert(in.end(), m[q].v.begin(), m[q].v.end());
    c.AddElement((MESHELEM_TYPE) m[i].k, in); I ty; for (auto x : c.aElemType) ty.push_back(x); J("Add").kv("k", m[i].k).arr("in", in).arr("ind", c.aElemInd).arr("el", c.aElem).arr("ty", ty).emit(); i = j; }
  int d = g(2); U ei = dirt(g, d), ea = dirt(g, d); c.MakeElemSurroundingPoint(ei, ea, np); ja("ElSuP", ei, ea);
  I fi = dirti(g, d), fr = dirti(g, d); if (g(2)) c.MakeSurroundingRelationship(fi, fr, np); else c.MakeSurroundingRelationship(fi, fr, ei, ea); J("MixRel").arr("ind", fi).arr("rel", fr).emit();
  bool line = false, flat = true; for (auto &e : m) { line |= e.k == MESHELEM_LINE; flat &= e.k == MESHELEM_TRI || e.k == MESHELEM_QUAD; }
  if (!line) { CElemMixed b; if (d) { b = c; } if (g(2)) c.makeBoundary(b, np); else c.makeBoundary(b, fi, fr); I ty; for (auto x : b.aElemType) ty.push_back(x); J("Bound").arr("ind", b.aElemInd).arr("el", b.aElem).arr("ty", ty).emit();
    if (!b.aElemType.empty() && b.aElemType[0] != MESHELEM_LINE) { bool all2 = true; for (auto x : b.aElemType) all2 &= x == MESHELEM_TRI || x == MESHELEM_QUAD; (void) all2; } }
  int n = -5; I gi = dirti(g, d); if (g(2)) c.MakeGroupElem(n, gi, np); else c.MakeGroupElem(n, gi, fi, fr); J("Group").kv("n", n).arr("a", gi).emit();
  for (int q = 0; q < n && (int) gi.size() == (int) m.size(); ++q) { CElemMixed x; if (d) x = c; c.ClipGroup(x, q, gi); I ty; for (auto y : x.aElemType) ty.push_back(y); J("Clip").kv("g", q).arr("grp", gi).arr("ind", x.aElemInd).arr("el", x.aElem).arr("ty", ty).emit(); }
  if (flat) { I f = dirti(g, d); c.FlipElement(f); J("MixFlip").arr("ind", c.aElemInd).arr("el0", c.aElem).arr("a", f).emit(); U t = dirt(g, d); c.getTriElement(t); J("MixTri").arr("a", t).emit(); }
}
// relabel the vertices, put the elements in random order and start faces of triangles anywhere
static int relabel(Mesh &m, Rng &g, int mode) {
  int mx = 0; for (auto &e : m) for (int v : e.v) mx = std::max(mx, v + 1); if (mode == 0) return mx;
  int np = mx + (mode == 2 ? g(6) : 0); I p(np); for (int i = 0; i < np; ++i) p[i] = i; for (int i = np - 1; i > 0; --i) std::swap(p[i], p[g(i + 1)]);
  for (auto &e : m) { for (int &v : e.v) v = p[v]; if (e.k == MESHELEM_TRI || e.k == MESHELEM_QUAD) std::rotate(e.v.begin(), e.v.begin() + g(e.v.size()), e.v.end()); }
  for (int i = (int) m.size() - 1; i > 0; --i) std::swap(m[i], m[g(i + 1)]);
  return np; }
static int LL(int i, int j, int k, int n) { return i + n * j + n * n * k; }
static I box(int i, int j, int k, int n) { return {LL(i,j,k,n), LL(i+1,j,k,n), LL(i+1,j+1,k,n), LL(i,j+1,k,n), LL(i,j,k+1,n), LL(i+1,j,k+1,n), LL(i+1,j+1,k+1,n), LL(i,j+1,k+1,n)}; }
static void addmix(Mesh &m, const I &h, Rng &g, int apex) { // a box as hex, two wedges, six pyramids, or five tets
  switch (g(6)) {
    case 0: m.push_back({MESHELEM_WEDGE, {h[0], h[1], h[2], h[4], h[5], h[6]}}); m.push_back({MESHELEM_WEDGE, {h[0], h[2], h[3], h[4], h[6], h[7]}}); break;
    case 1: { static const int f[6][4] = {{0,4,7,3},{1,2,6,5},{0,1,5,4},{3,7,6,2},{0,3,2,1},{4,5,6,7}}; for (int q = 0; q < 6; ++q) if (g(5)) m.push_back({MESHELEM_PYRAMID, {h[f[q][0]], h[f[q][3]], h[f[q][2]], h[f[q][1]], apex}}); break; }
    case 2: { static const int f[5][4] = {{0,1,3,4},{1,2,3,6},{1,3,4,6},{1,4,5,6},{3,4,6,7}}; for (int q = 0; q < 5; ++q) m.push_back({MESHELEM_TET, {h[f[q][0]], h[f[q][1]], h[f[q][2]], h[f[q][3]]}}); break; }
    case 3: m.push_back({MESHELEM_VOX, {h[0], h[1], h[3], h[2], h[4], h[5], h[7], h[6]}}); break;
    default: m.push_back({MESHELEM_HEX, h}); } }
int main(int argc, char **argv) {
  vh::init(argc, argv); bool mix = getenv("CONN_MIX") && !strcmp(getenv("CONN_MIX"), "1");
  if (!input_path.empty()) for (auto &v : read_lines(input_path)) run_case([&] { // (kind, v..)*
    Rng g(seed * 77 + cur_case); Mesh m; for (size_t i = 0; i < v.size();) { int k = v[i++]; El e{k, {}}; for (int q = 0; q < mapMeshElemType2NNodeElem[k]; ++q) e.v.push_back(v[i++]); m.push_back(e); }
    int np = relabel(m, g, cur_case % 3); bool uni = true; for (auto &e : m) uni &= e.k == m[0].k;
    if (!mix) uniform(m, np, g); else { mixed(m, np, g); if (uni && m[0].k != MESHELEM_PYRAMID && m[0].k != MESHELEM_WEDGE) group_u(m, np, g); } });
  int nr = thorough ? 1200 : 150;
  for (int i = 0; i < nr; ++i) run_case([&] {
    Rng g(seed * 313 + i); Mesh m; int kind = i % 8;
    if (kind == 0) { int nv = 4 + g(6), ne = 1 + g(12); std::set<std::set<int>> seen; for (int q = 0; q < ne; ++q) { int a = g(nv), b = g(nv), c = g(nv); if (a == b || b == c || a == c || !seen.insert({a, b, c}).second) continue; m.push_back({MESHELEM_TRI, {a, b, c}}); } if (m.empty()) m.push_back({MESHELEM_TRI, {0, 1, 2}}); }
    else if (kind == 1) { int w = 1 + g(3), h = 1 + g(3); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { if (!g(6)) continue; int a = x + y * (w + 1), b = a + 1, c = b + w + 1, d = a + w + 1; if (g(2)) { m.push_back({MESHELEM_TRI, {a, b, c}}); m.push_back({MESHELEM_TRI, {a, c, d}}); } else { m.push_back({MESHELEM_TRI, {a, b, d}}); m.push_back({MESHELEM_TRI, {b, c, d}}); } } if (m.empty()) m.push_back({MESHELEM_TRI, {0, 1, 2}}); }
    else if (kind == 2) { static const int oc[8][3] = {{0,1,2},{0,2,3},{0,3,4},{0,4,1},{1,5,2},{2,5,3},{3,5,4},{1,4,5}}; if (g(2)) for (auto &f : oc) m.push_back({MESHELEM_TRI, {f[0], f[1], f[2]}}); else for (int q = 0; q < 7; ++q) { m.push_back({MESHELEM_TRI, {q, (q + 1) % 7, (q + 3) % 7}}); m.push_back({MESHELEM_TRI, {q, (q + 3) % 7, (q + 2) % 7}}); } }
    else if (kind == 3) { int w = 1 + g(4), h = 1 + g(3); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { if (!g(5)) continue; int a = x + y * (w + 1), b = a + 1, c = b + w + 1, d = a + w + 1; m.push_back({MESHELEM_QUAD, {a, b, c, d}}); } if (m.empty()) m.push_back({MESHELEM_QUAD, {0, 1, 2, 3}}); }
    else if (kind == 4) { for (int q = 0; q < 8; ++q) if (g(3)) { I b = box(q & 1, (q >> 1) & 1, q >> 2, 3); m.push_back({MESHELEM_HEX, b}); } if (m.empty()) m.push_back({MESHELEM_HEX, box(0, 0, 0, 3)}); }
    else if (kind == 5) { for (int q = 0; q < 4; ++q) if (g(3)) { I h = box(q & 1, (q >> 1) & 1, 0, 3); static const int f[5][4] = {{0,1,3,4},{1,2,3,6},{1,3,4,6},{1,4,5,6},{3,4,6,7}}; for (auto &t : f) m.push_back({MESHELEM_TET, {h[t[0]], h[t[1]], h[t[2]], h[t[3]]}}); } if (m.empty()) m.push_back({MESHELEM_TET, {0, 1, 2, 3}}); }
    else if (kind == 6) { for (int q = 0; q < 8; ++q) if (g(3)) { I h = box(q & 1, (q >> 1) & 1, q >> 2, 3); m.push_back({MESHELEM_VOX, {h[0], h[1], h[3], h[2], h[4], h[5], h[7], h[6]}}); } if (m.empty()) m.push_back({MESHELEM_VOX, {0, 1, 2, 3, 4, 5, 6, 7}}); }
    else { int nv = 3 + g(8), ne = 1 + g(10); for (int q = 0; q < ne; ++q) { int a = g(nv), b = g(nv); if (a != b) m.push_back({MESHELEM_LINE, {a, b}}); } if (m.empty()) m.push_back({MESHELEM_LINE, {0, 1}}); }
    int np = relabel(m, g, g(3));
    if (!mix) uniform(m, np, g); else { group_u(m, np, g); mixed(m, np, g); } });
  if (!mix) for (int i = 0; i < nr; ++i) run_case([&] { // jagged arrays of their own; hairs
    Rng g(seed * 919 + i); emesh({}, 0); int n = 1 + g(9); U ind = {0}, a; bool noself = g(2);
    for (int p = 0; p < n; ++p) { I c; for (int q = 0; q < n; ++q) if ((q != p || !noself) && g(3) == 0) c.push_back(q); for (int q = (int) c.size() - 1; q > 0; --q) std::swap(c[q], c[g(q + 1)]); for (int q : c) a.push_back(q); ind.push_back(a.size()); }
    jagged(ind, a, g, g(2), true);
    U root = {0}; int nh = 1 + g(4); for (int h = 0; h < nh; ++h) root.push_back(root.back() + 3 + g(4)); U x = dirt(g, g(2)), y = dirt(g, g(2)); JArray_PSuP_Hair(x, y, root); J("Hair").arr("root", root).arr("ind", x).arr("a", y).emit(); });
  else for (int i = 0; i < nr * 2; ++i) run_case([&] {
    Rng g(seed * 617 + i);
    if (i % 3 == 0) { Mesh m; int n = 2 + g(3); int apex = 27; for (int q = 0; q < n; ++q) { int b = g(4); I h = box(b & 1, b >> 1, 0, 3); bool dup = false; for (int s = 0; s < q; ++s) dup |= false; (void) dup; addmix(m, h, g, apex++); }
      // the same box twice with the same split gives coincident elements: drop repeated vertex sets of one kind
      Mesh u; std::set<std::pair<int, std::set<int>>> seen; for (auto &e : m) if (seen.insert({e.k, std::set<int>(e.v.begin(), e.v.end())}).second) u.push_back(e); if (u.empty()) u.push_back({MESHELEM_HEX, box(0, 0, 0, 3)});
      int np = relabel(u, g, g(3)); mixed(u, np, g); }
    else if (i % 3 == 1) { Mesh m; int w = 1 + g(3), h = 1 + g(3); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { if (!g(4)) continue; int a = x + y * (w + 1), b = a + 1, c = b + w + 1, d = a + w + 1; if (g(2)) m.push_back({MESHELEM_QUAD, {a, b, c, d}}); else { m.push_back({MESHELEM_TRI, {a, b, c}}); m.push_back({MESHELEM_TRI, {a, c, d}}); } }
      int ex = (w + 1) * (h + 1); for (int q = g(3); q > 0; --q) { int a = g(w), b = a + 1; m.push_back({MESHELEM_TRI, {a, b, ex++}}); } if (m.empty()) m.push_back({MESHELEM_QUAD, {0, 1, 2, 3}});
      int np = relabel(m, g, g(3)); mixed(m, np, g); }
    else { emesh({}, 0); int nt = 1 + g(6), nx = 3 + g(4), ntx = 3 + g(4); U x, t; for (int q = 0; q < nt; ++q) { int a, b, c; do { a = g(nx); b = g(nx); c = g(nx); } while (a == b || b == c || a == c); x.insert(x.end(), {(unsigned) a, (unsigned) b, (unsigned) c}); do { a = g(ntx); b = g(ntx); c = g(ntx); } while (a == b || b == c || a == c); t.insert(t.end(), {(unsigned) a, (unsigned) b, (unsigned) c}); }
      std::vector<double> vx, vt, px(g(9), 5.), pt(g(9), 5.); for (int q = 0; q < nx * 3; ++q) vx.push_back(g(1000)); for (int q = 0; q < ntx * 2; ++q) vt.push_back(g(1000));
      int d = g(2); U tri = dirt(g, d), ux = dirt(g, d), ut; if (d) ut.assign(ux.size(), 3); UnifySeparateIndexing_PosTex(px, pt, tri, ux, ut, vx, vt, x, t);
      J("Unify").arr("x", x).arr("t", t).arr("tri", tri).arr("ux", ux).arr("ut", ut).arr("vx", std::vector<long>(vx.begin(), vx.end())).arr("vt", std::vector<long>(vt.begin(), vt.end())).arr("px", std::vector<long>(px.begin(), px.end())).arr("pt", std::vector<long>(pt.begin(), pt.end())).emit(); } });
}
