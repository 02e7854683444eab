#include "vh.h"
#include "delfem2/gridvoxel.h"
using namespace delfem2; using namespace vh;
typedef CGrid3<int> G3;
static bool g_alt = false; // output containers hold something already
static void cells(const char *ev, const G3 &g) { J(ev).arr("vals", g.aVal).emit(); }
template<class I> static void elems(const char *ev, const std::vector<double> &X, const std::vector<I> &E, int n) {
  std::vector<std::array<long, 3>> x; for (size_t i = 0; i + 2 < X.size(); i += 3) x.push_back({EX(X[i]), EX(X[i + 1]), EX(X[i + 2])});
  std::vector<std::vector<long>> e; for (size_t i = 0; i + n <= E.size(); i += n) { e.emplace_back(); for (int k = 0; k < n; ++k) e.back().push_back(IX(E[i + k])); }
  if (E.size() % n) e.push_back({BAD}); J(ev).arr2("xyz", x).arr2("el", e).emit(); }
static void meshes(const G3 &g, Rng &r) {
  std::vector<double> X; if (r(2)) X.assign(5, 3.); std::vector<unsigned> Q; if (r(2)) Q.assign(3, 1u); std::vector<int> H, T; if (r(2)) { H.assign(3, 1); T.assign(2, 0); }
  MeshQuad3D_VoxelGrid(X, Q, g.ndivx, g.ndivy, g.ndivz, g.aVal); elems("Quad", X, Q, 4);
  if (r(3) == 0) { if (r(2)) X.clear(); MeshHex3D_VoxelGrid(X, H, g.ndivx, g.ndivy, g.ndivz, g.aVal); elems("Hex", X, H, 8); }
  if (r(3) == 0) { if (r(2)) X.clear(); MeshTet3D_VoxelGrid(X, T, g.ndivx, g.ndivy, g.ndivz, g.aVal); elems("Tet", X, T, 4); } }
static void adj(const G3 &g) { std::vector<std::array<long, 6>> a; for (size_t i = 0; i < g.aVal.size(); ++i) { a.emplace_back(); for (int k = 0; k < 6; ++k) a.back()[k] = Adj_Grid(i, k, g.ndivx, g.ndivy, g.ndivz); } J("Adj").arr2("adj", a).emit(); }
static void geod(const G3 &g, Rng &r) {
  std::vector<unsigned> fill; for (unsigned i = 0; i < g.aVal.size(); ++i) if (g.aVal[i]) fill.push_back(i); if (fill.empty()) return;
  int n = 1 + r(4), el = 1 + r(4); std::vector<std::pair<unsigned, double>> sd; std::vector<std::array<long, 2>> s;
  for (int k = 0; k < n; ++k) { unsigned c = fill[r(fill.size())]; int w = r(3) ? 0 : r(12); sd.emplace_back(c, w); s.push_back({c, w}); }
  std::vector<double> D; if (r(2)) D.assign(4, 1.); VoxelGeodesic(D, sd, el, g);
  std::vector<long> o; for (double x : D) o.push_back(EX(x)); J("Geo").arr2("seeds", s).kv("el", el).arr("dist", o).emit(); }
static void seg(G3 &g, Rng &r) {
  int k = 1 + r(4), n[3] = {(int) g.ndivx, (int) g.ndivy, (int) g.ndivz}; long p[3], q[3];
  int style = r(4); for (int a = 0; a < 3; ++a) { p[a] = r.range(-k, (n[a] + 1) * k); q[a] = r.range(-k, (n[a] + 1) * k); }
  if (style == 1) for (int a = 0; a < 3; ++a) { p[a] = p[0]; q[a] = q[0]; } // along the diagonal
  if (style == 2) { int a = r(3); q[a] = p[a]; if (r(2)) { a = r(3); q[a] = p[a]; } } // along a plane or an axis
  if (style == 3) for (int a = 0; a < 3; ++a) q[a] = p[a] + (r(2) ? 1 : -1) * std::labs(q[0] - p[0]);
  int sc = r(2) ? 1 : 2; int off[3] = {0, 0, 0}; if (r(2)) for (int a = 0; a < 3; ++a) off[a] = r(5) - 2;
  g.am.SetIdentity(); for (int a = 0; a < 3; ++a) { g.am.mat[a * 4 + a] = sc; g.am.mat[a * 4 + 3] = off[a]; }
  if (k == 3) for (int a = 0; a < 3; ++a) { p[a] = p[a] / 3 * 3; q[a] = q[a] / 3 * 3; } // thirds are not exact
  CVec3d P(p[0] / double(k) * sc + off[0], p[1] / double(k) * sc + off[1], p[2] / double(k) * sc + off[2]), Q(q[0] / double(k) * sc + off[0], q[1] / double(k) * sc + off[1], q[2] / double(k) * sc + off[2]);
  std::vector<unsigned> L; if (r(2)) L.assign(2, 7u); Intersection_VoxelGrid_LinSeg(L, g, P, Q);
  J("Seg").kv("k", k).ptr("p", p, 3).ptr("q", q, 3).arr("list", L).emit(); }
static void boxes(Rng &r) {
  int b[8] = {1, -1, 0, 0, 0, 0, 0, 0};
  for (int t = 0; t < 4; ++t) { int o[8]; memcpy(o, b, sizeof b); int c[3] = {r(6) - 2, r(6) - 2, r(6) - 2}; Add_AABB(b, c[0], c[1], c[2]);
    std::vector<std::array<long, 3>> q; std::vector<long> in; for (int k = 0; k < 12; ++k) { int x = r(7) - 3, y = r(7) - 3, z = r(7) - 3; q.push_back({x, y, z}); in.push_back(IsInclude_AABB(b, x, y, z)); }
    J("Box").ptr("bb", o, 6).ptr("p", c, 3).ptr("aa", b, 6).arr2("q", q).arr("inc", in).emit(); } }
static void init0(G3 &g, int x, int y, int z, int v) { g.Initialize(x, y, z, v); J("Init").arr("d", std::vector<int>{x, y, z}).kv("v", v).arr("vals", g.aVal).emit(); }
static void set(G3 &g, int x, int y, int z, int v) { bool in = g.IsInclude(x, y, z); g.Set(x, y, z, v); J("Set").arr("p", std::vector<int>{x, y, z}).kv("v", v).kv("inc", in).arr("vals", g.aVal).emit(); }
static void grow(G3 &g) { Grid3Voxel_Dilation(g); cells("Grow", g); }
static void shrink(G3 &g) { Grid3Voxel_Erosion(g); cells("Shrink", g); }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  if (!input_path.empty()) for (auto &v : read_lines(input_path)) run_case([&] {
    Rng r(seed * 77 + cur_case); G3 g; int d[3] = {(int) v[0], (int) v[1], (int) v[2]}, n = d[0] * d[1] * d[2]; init0(g, d[0], d[1], d[2], r(2));
    bool one = r(2); for (int i = 0; i < n; ++i) if (one || g.aVal[i] != v[3 + i]) set(g, i % d[0], (i / d[0]) % d[1], i / (d[0] * d[1]), v[3 + i]);
    meshes(g, r); geod(g, r);
    for (size_t i = 3 + n; i < v.size(); ++i) { if (v[i] == 1) grow(g); else shrink(g); if (r(2)) meshes(g, r); }
    geod(g, r); if (r(4) == 0) adj(g); });
  int nr = thorough ? 4000 : 500;
  for (int i = 0; i < nr; ++i) run_case([&] {
    Rng r(seed * 90001 + i); G3 g; int x = 1 + r(5), y = 1 + r(5), z = 1 + r(5); if (r(3) == 0) { int t = 1 + r(4); x = y = z = t; } init0(g, x, y, z, r(3) == 0);
    int m = r(x * y * z + 4), p = 1 + r(4); for (int k = 0; k < m; ++k) set(g, r.range(-1, x), r.range(-1, y), r.range(-1, z), r(p) ? 1 : 0);
    for (int k = 0; k < 4; ++k) { int o = r(8); if (o == 0) grow(g); else if (o == 1) shrink(g); else if (o == 2) meshes(g, r); else if (o < 5) geod(g, r); else if (o < 7) for (int t = 0; t < 6; ++t) seg(g, r); else set(g, r(x), r(y), r(z), r(2)); }
    if (r(3) == 0) meshes(g, r); if (r(4) == 0) adj(g); if (r(5) == 0) boxes(r);
    if (r(12) == 0) { init0(g, z, x, y, 0); set(g, 0, 0, 0, 1); grow(g); meshes(g, r); } });
}
