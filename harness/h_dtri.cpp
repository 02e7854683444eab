#include "vh.h"
#include "delfem2/dtri_topology.h"
#include <set>
using namespace delfem2; using namespace vh;
typedef std::vector<CDynTri> VT; typedef std::vector<CDynPntSur> VP;
struct Mesh { VP p; VT t; };
static J &state(J &j, const Mesh &m) {
  std::vector<std::array<unsigned, 3>> a, b; std::vector<unsigned> e, d;
  for (auto &t : m.t) { a.push_back({t.v[0], t.v[1], t.v[2]}); b.push_back({t.s2[0], t.s2[1], t.s2[2]}); }
  for (auto &p : m.p) { e.push_back(p.e); d.push_back(p.d); }
  return j.kv("nv", (unsigned long) m.p.size()).arr2("tri", a).arr2("s2", b).arr("pe", e).arr("pd", d);
}
static void init(Mesh &m, const std::vector<unsigned> &f, unsigned np, bool dirty) {
  if (dirty) { // the tables held another mesh before
    std::vector<unsigned> g = {0, 1, 2, 0, 2, 3, 0, 3, 1, 1, 3, 2}; InitializeMesh(m.p, m.t, g.data(), 4, 4);
  }
  InitializeMesh(m.p, m.t, f.data(), f.size() / 3, np);
  J j("Init"); std::vector<std::array<unsigned, 3>> in;
  for (size_t i = 0; i + 2 < f.size(); i += 3) in.push_back({f[i], f[i + 1], f[i + 2]});
  j.arr2("in", in); state(j, m); j.emit();
}
static bool find(const Mesh &m, unsigned a, unsigned b, unsigned &it, unsigned &ie) {
  for (unsigned i = 0; i < m.t.size(); ++i) for (unsigned k = 0; k < 3; ++k)
    if (m.t[i].v[(k + 1) % 3] == a && m.t[i].v[(k + 2) % 3] == b) { it = i; ie = k; return true; }
  return false;
}
static bool adjacent(const Mesh &m, unsigned a, unsigned b) { unsigned x, y; return find(m, a, b, x, y) || find(m, b, a, x, y); }
static void op_insface(Mesh &m, unsigned it) {
  m.p.push_back(CDynPntSur()); bool r = InsertPoint_Elem(m.p.size() - 1, it, m.p, m.t);
  J j("InsFace"); j.kv("it", it).kv("ret", r); state(j, m); j.emit();
}
static void op_insedge(Mesh &m, unsigned it, unsigned ie) {
  m.p.push_back(CDynPntSur()); bool r = InsertPoint_ElemEdge(m.p.size() - 1, it, ie, m.p, m.t);
  J j("InsEdge"); j.kv("it", it).kv("ie", ie).kv("ret", r); state(j, m); j.emit();
}
static void op_flip(Mesh &m, unsigned it, unsigned ie) {
  bool r = FlipEdge(it, ie, m.p, m.t); J j("Flip"); j.kv("it", it).kv("ie", ie).kv("ret", r); state(j, m); j.emit();
}
static void op_collapse(Mesh &m, unsigned it, unsigned ie) {
  bool r = CollapseEdge_MeshDTri(it, ie, m.p, m.t); J j("Collapse"); j.kv("it", it).kv("ie", ie).kv("ret", r); state(j, m); j.emit();
}
static void op_delete(Mesh &m, unsigned it) {
  bool r = DeleteTri(it, m.p, m.t); J j("Delete"); j.kv("it", it).kv("ret", r); state(j, m); j.emit();
}
static void query(Mesh &m) {
  AssertDTri(m.t); if (!m.t.empty()) AssertMeshDTri(m.p, m.t);
  std::vector<std::array<unsigned, 3>> ccw, cw;
  for (unsigned i = 0; i < m.t.size(); ++i) for (unsigned c = 0; c < 3; ++c) {
    unsigned a = i, b = c; bool r = MoveCCW(a, b, UINT_MAX, m.t); ccw.push_back({(unsigned) r, a, b});
    a = i; b = c; r = MoveCW(a, b, UINT_MAX, m.t); cw.push_back({(unsigned) r, a, b});
  }
  const unsigned np = m.p.size();
  std::set<unsigned> bnd; for (auto &t : m.t) for (int k = 0; k < 3; ++k) if (t.s2[k] == UINT_MAX) { bnd.insert(t.v[(k + 1) % 3]); bnd.insert(t.v[(k + 2) % 3]); }
  J j("Query"); state(j, m); j.arr2("ccw", ccw).arr2("cw", cw);
  std::string s = "["; std::string rg = "[";
  for (unsigned v = 0; v < np; ++v) {
    if (v) { s += ","; rg += ","; }
    std::vector<std::pair<unsigned, unsigned>> A; std::vector<unsigned> R = {7, 7};
    if (m.p[v].e != UINT_MAX) {
      GetTriArrayAroundPoint(A, v, m.p, m.t);
      if (!bnd.count(v)) FindPointAroundPoint(R, v, m.p, m.t);
    }
    s += "["; for (size_t k = 0; k < A.size(); ++k) { if (k) s += ","; s += J::str(std::array<unsigned, 2>{A[k].first, A[k].second}); } s += "]";
    rg += J::str(R);
  }
  j.raw("around", s + "]").raw("ring", rg + "]");
  std::vector<std::array<unsigned, 6>> fe; std::vector<std::array<unsigned, 4>> fa;
  for (unsigned a = 0; a < np; ++a) for (unsigned b = 0; b < np; ++b) {
    if (a == b) continue;
    if (np > 12 && (a * 7 + b * 3) % 5) continue;
    if (m.p[a].e != UINT_MAX) { unsigned x = 0, y = 0, z = 0; bool r = FindEdge_LookAroundPoint(x, y, z, a, b, m.p, m.t); fe.push_back({a, b, (unsigned) r, x, y, z}); }
    unsigned x = UINT_MAX, y = 0; FindEdge_LookAllTriangles(x, y, a, b, m.t); fa.push_back({a, b, x, y});
  }
  j.arr2("find", fe).arr2("findall", fa);
  std::vector<std::vector<int>> H; extractHoles(H, (int) np, m.t); j.arr2("holes", H); j.emit();
}
static void replay(const std::vector<long> &v, bool dirty) { // v: nface faces.. npo nop ops(len,codes..)
  Mesh m; size_t k = 0; int nf = v[k++]; std::vector<unsigned> f; for (int i = 0; i < 3 * nf; ++i) f.push_back(v[k++]);
  unsigned np = v[k++]; int rot = v[k++]; int nop = v[k++];
  for (size_t i = 0; i + 2 < f.size(); i += 3) std::rotate(f.begin() + i, f.begin() + i + (rot + i / 3) % 3, f.begin() + i + 3);
  init(m, f, np, dirty); query(m);
  for (int i = 0; i < nop; ++i) {
    int len = v[k++]; std::vector<unsigned> o(v.begin() + k, v.begin() + k + len); k += len; unsigned it, ie;
    if (o[0] == 1 || o[0] == 5) {
      if (!find(m, o[1], o[2], it, ie)) return;
      if (o[0] == 1) op_insface(m, it); else op_delete(m, it);
    } else {
      if (!find(m, o[1], o[2], it, ie)) return;
      if (o[0] == 2) op_insedge(m, it, ie); if (o[0] == 3) op_flip(m, it, ie); if (o[0] == 4) op_collapse(m, it, ie);
    }
  }
  query(m);
}
static std::vector<unsigned> seedmesh(Rng &g, unsigned &np) {
  switch (g(7)) {
    case 0: np = 4; return {0, 1, 2, 0, 3, 1, 0, 2, 3, 1, 3, 2};
    case 1: np = 3; return {0, 1, 2};
    case 2: np = 6; return {0, 1, 4, 0, 4, 3, 1, 2, 5, 1, 5, 4, 0, 3, 2, 2, 3, 5};
    case 3: { np = 7; std::vector<unsigned> f; for (unsigned i = 0; i < 7; ++i) { for (unsigned x : {i, i + 1, i + 3, i, i + 3, i + 2}) f.push_back(x % 7); } return f; }
    case 4: np = 8; return {0, 1, 2, 0, 2, 3, 0, 3, 4, 0, 4, 1, 1, 5, 2, 2, 5, 3, 3, 5, 4, 1, 4, 5}; // two unused vertices
    case 5: np = 11; return {0, 1, 2, 3, 4, 5, 6, 7, 8, 6, 8, 9};
    default: { // grid with a missing cell
      int n = 3; np = (n + 1) * (n + 1); std::vector<unsigned> f; int hole = g(2) ? 4 : -1;
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (i * n + j == hole) continue; unsigned a = i * (n + 1) + j, b = a + 1, c = a + n + 2, d = a + n + 1;
        if (g(2)) { for (unsigned x : {a, b, c, a, c, d}) f.push_back(x); } else { for (unsigned x : {a, b, d, b, c, d}) f.push_back(x); } }
      return f; }
  }
}
static void randomwalk(unsigned long s, int nstep) {
  Rng g(s); unsigned np; auto f = seedmesh(g, np); Mesh m;
  for (size_t i = 0; i + 2 < f.size(); i += 3) std::rotate(f.begin() + i, f.begin() + i + g(3), f.begin() + i + 3);
  init(m, f, np, g(2)); int grow = g(10);
  for (int k = 0; k < nstep; ++k) {
    if (m.t.empty()) break;
    unsigned it = g(m.t.size()), ie = g(3); int r = g(10);
    bool small = m.t.size() < 26;
    if (r < 2 && small) op_insface(m, it);
    else if (r < 4 && small) { if (m.t[it].s2[ie] != UINT_MAX) op_insedge(m, it, ie); }
    else if (r < 7) {
      unsigned b = m.t[it].s2[ie];
      if (b != UINT_MAX) { // only flips whose new edge does not exist yet
        unsigned a0 = m.t[it].v[ie], x = m.t[it].v[(ie + 1) % 3], y = m.t[it].v[(ie + 2) % 3], o = UINT_MAX;
        for (unsigned q : m.t[b].v) if (q != x && q != y) o = q;
        if (o == a0 || adjacent(m, a0, o)) continue;
      }
      op_flip(m, it, ie);
    } else if (r < 9 || grow < 3) { if (m.t[it].s2[ie] != UINT_MAX) op_collapse(m, it, ie); }
    else { for (unsigned i = 0; i < m.t.size(); ++i) if (m.t[i].s2[0] == UINT_MAX && m.t[i].s2[1] == UINT_MAX && m.t[i].s2[2] == UINT_MAX) { op_delete(m, i); break; } }
    if (g(6) == 0) query(m);
  }
  query(m);
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  long n = 0;
  if (!input_path.empty()) for (auto &v : read_lines(input_path)) { bool d = (n++ % 2); run_case([&] { replay(v, d); }); }
  int nr = thorough ? 3000 : 260;
  for (int i = 0; i < nr; ++i) run_case([&] { randomwalk(seed * 100000 + i, thorough ? 60 : 30); });
}
