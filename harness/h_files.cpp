// C21: files of meshes, arrays and images.  Everything is written below one scratch directory that is removed at the end.
#include "vh.h"
#include <filesystem>
#include <map>
#include "delfem2/msh_io_obj.h"
#include "delfem2/msh_io_ply.h"
#include "delfem2/msh_io_misc.h"
#include "delfem2/filenpy_str.h"
#include "delfem2/img_ioppm.h"
#include "delfem2/file.h"
using namespace delfem2; using namespace vh;
typedef std::vector<long> VL; typedef std::vector<VL> VVL; typedef std::vector<double> VD; typedef std::vector<unsigned> VU; typedef std::vector<int> VI; typedef std::string S;
static S dir; static S path(const char *n) { return dir + "/" + n; }
template<class T> static VL ex(const std::vector<T> &v, double s) { VL o; for (T x : v) o.push_back(RX((double) x, s, 1e-4)); return o; }
template<class T> static VL il(const std::vector<T> &v) { VL o; for (auto x : v) o.push_back(IX(x)); return o; }
static void put(const S &f, const S &t) { std::ofstream o(f, std::ios::binary); o << t; }
static S get(const S &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static long nameid(const S &s) { size_t k = s.size(); while (k && isdigit((unsigned char) s[k - 1])) --k; if (s == "default") return -1; return k < s.size() ? atol(s.c_str() + k) : -2; }
static void same(const char *what, const VL &put, const VL &got) { J("Same").ks("what", what).arr("put", put).arr("got", got).emit(); }
static S num(Rng &r, double v) { char b[64]; switch (r(4)) { case 0: snprintf(b, 64, "%g", v); break; case 1: snprintf(b, 64, "%.4f", v); break; case 2: snprintf(b, 64, "%.6e", v); break; default: snprintf(b, 64, "%.3f", v); } return b; }
struct Style { int eol, longl, last; };
// coordinates are in eighths, normals in whole numbers
static S text(Rng &r, const VVL &L, const Style &st) { S s; const char *nl = st.eol ? "\r\n" : "\n"; static const char *other[] = {"# comment f 1 2 3", "", "s off", "o thing", "#", "usemtl m1", "# v 1 2 3", "vp 1 2 3"};
  for (size_t i = 0; i < L.size(); ++i) { const VL &l = L[i]; auto sp = [&] { return S(r(6) == 0 ? 2 : 1, ' '); };
    if (l[0] == 1) { s += "v"; for (int k = 1; k < 4; ++k) s += sp() + num(r, l[k] / 8.); } else if (l[0] == 2) { s += "vt"; for (int k = 1; k < 3; ++k) s += sp() + num(r, l[k] / 8.); }
    else if (l[0] == 3) { s += "vn"; for (int k = 1; k < 4; ++k) s += sp() + num(r, l[k]); }
    else if (l[0] == 4) { s += "f"; for (size_t k = 1; k + 2 < l.size(); k += 3) { s += sp() + std::to_string(l[k]); if (l[k + 1] || l[k + 2]) s += "/"; if (l[k + 1]) s += std::to_string(l[k + 1]); if (l[k + 2]) s += "/" + std::to_string(l[k + 2]); } }
    else if (l[0] == 5) s += "g" + sp() + "part" + std::to_string(l[1]); else if (l[0] == 6) s += "mtllib m" + std::to_string(l[1]) + ".mtl"; else { s += other[r(8)]; if (st.longl && !s.empty() && s.back() == '3') s += S(100 + r(400), 'x'); }
    if (l[0] && r(6) == 0) s += " "; if (i + 1 < L.size() || !st.last) s += nl; }
  return s; }
static VVL lines_of(const S &t) { VVL o; std::istringstream is(t); S line; while (std::getline(is, line)) { std::istringstream ls(line); S k, w; std::vector<S> a; ls >> k; while (ls >> w) a.push_back(w); VL l;
    if (k == "v" || k == "vt" || k == "vn") { l.push_back(k == "v" ? 1 : k == "vt" ? 2 : 3); for (auto &x : a) l.push_back(RX(atof(x.c_str()), 8, 1e-4)); }
    else if (k == "f") { l.push_back(4); for (auto &x : a) { long p[3] = {0, 0, 0}; int q = 0; std::istringstream xs(x); S y; while (q < 3 && std::getline(xs, y, '/')) p[q++] = y.empty() ? 0 : atol(y.c_str()); l.insert(l.end(), p, p + 3); } }
    else if (k == "g") { l = {5, a.empty() ? -2 : nameid(a[0])}; } else l = {0};
    o.push_back(l); } return o; }
static S jl(const VVL &L) { J j("x"); j.s.clear(); j.arr2("l", L); return j.s.substr(5); }
static void read_all(Rng &r, const VVL &L, const Style &st) { S f = path("a.obj"); put(f, text(r, L, st)); bool tri = true, quad = true, any = false; for (auto &l : L) if (l[0] == 4) { any = true; if (l.size() != 10) tri = false; if (l.size() != 13) quad = false; }
  auto em = [&](const char *how, const VL &x, const VL &e) { J("Read").ks("how", how).raw("lines", jl(L)).arr("xyz", x).arr("elem", e).emit(); };
  VD x; VU t; bool dirty = r(2); if (dirty) { x.assign(5, 7.); t.assign(4, 2u); }
  Read_Obj3(x, t, f); em("fan", ex(x, 8), il(t)); { std::vector<float> xf; VU tf; Read_Obj3(xf, tf, f); em("fan", ex(xf, 8), il(tf)); }
  if (tri || !any) { Read_Obj(x, t, f); em("tri", ex(x, 8), il(t)); Read_Obj2(f, x, t); em("tri", ex(x, 8), il(t)); }
  if (quad || !any) { Read_Obj_MeshQuad3(x, t, f); em("quad", ex(x, 8), il(t)); }
  S mtl = "old"; VD tex, nrm; VU ind, fx, ft, fn, gi; std::vector<S> gn; if (dirty) { tex.assign(3, 1.); nrm = tex; ind = {1, 2}; fx = ft = fn = gi = ind; gn = {"old"}; x.assign(4, 1.); }
  bool ret; if (r(2)) ret = Read_WavefrontObjWithMaterialMixedElem(mtl, x, tex, nrm, ind, fx, ft, fn, gn, gi, std::filesystem::path(f));
  else { std::vector<float> xf, tf, nf; ret = Read_WavefrontObjWithMaterialMixedElem(mtl, xf, tf, nf, ind, fx, ft, fn, gn, gi, std::filesystem::path(f)); x.assign(xf.begin(), xf.end()); tex.assign(tf.begin(), tf.end()); nrm.assign(nf.begin(), nf.end()); }
  VL g; for (auto &s : gn) g.push_back(nameid(s)); long m = 0; if (!mtl.empty()) { S b = mtl.substr(0, mtl.find('.')); m = nameid(b); }
  J("Mixed").raw("lines", jl(L)).kv("ret", ret).arr("xyz", ex(x, 8)).arr("tex", ex(tex, 8)).arr("nrm", ex(nrm, 5)).arr("ind", il(ind)).arr("fxyz", il(fx)).arr("ftex", il(ft)).arr("fnrm", il(fn)).arr("gname", g).arr("gind", il(gi)).kv("mtl", m).emit(); }
struct Mesh { VD x; VI t; VU u; };
static Mesh mesh(Rng &r, int nn, int big = 999) { Mesh m; int np = nn + r(7), nt = 1 + r(7); for (int i = 0; i < np * 3; ++i) m.x.push_back(r.range(-big, big) / 8.); for (int i = 0; i < nt; ++i) { VI a; while ((int) a.size() < nn) { int p = r(np); bool d = false; for (int q : a) d = d || q == p; if (!d) a.push_back(p); } m.t.insert(m.t.end(), a.begin(), a.end()); } m.u.assign(m.t.begin(), m.t.end()); return m; }
static void wrote(const S &f, const VD &x, const VD &tex, const VD &nrm, const VVL &faces, const VVL &groups) { J("Wrote").raw("lines", jl(lines_of(get(f)))).arr("xyz", ex(x, 8)).arr("tex", ex(tex, 8)).arr("nrm", ex(nrm, 8)).arr2("faces", faces).arr2("groups", groups).emit(); }
static VVL plain(const VI &t, int nn) { VVL o; for (size_t i = 0; i < t.size(); i += nn) { VL f; for (int k = 0; k < nn; ++k) { f.push_back(t[i + k]); f.push_back(-1); f.push_back(-1); } o.push_back(f); } return o; }
static VL cat(VL a, const VL &b) { a.push_back(-777); a.insert(a.end(), b.begin(), b.end()); return a; }
static VL cs(const S &s) { VL v; for (unsigned char c : s) v.push_back(c); return v; }
static void obj_write(Rng &r) { S f = path("w.obj"); int k = r(5); if (r(2)) put(f, "v 1 1 1\nf 9 9 9\nold text\n");
  if (k == 0) { int nn = 3 + r(2); Mesh m = mesh(r, nn); if (r(2)) Write_Obj_UniformMesh(f, m.x.data(), m.x.size() / 3, m.u.data(), m.u.size() / nn, nn); else { std::vector<float> xf(m.x.begin(), m.x.end()); Write_Obj_UniformMesh(f, xf.data(), xf.size() / 3, m.t.data(), m.t.size() / nn, nn); } wrote(f, m.x, {}, {}, plain(m.t, nn), {}); VD x; VU t; if (nn == 3) Read_Obj(x, t, f); else Read_Obj_MeshQuad3(x, t, f); same("obj", cat(ex(m.x, 8), il(m.t)), cat(ex(x, 8), il(t))); }
  else if (k == 1) { Mesh m = mesh(r, 4); VI ind = {0}, el; VVL fs; for (size_t i = 0; i < m.t.size(); i += 4) { int n = 3 + r(2); VL fc; for (int q = 0; q < n; ++q) { el.push_back(m.t[i + q]); fc.insert(fc.end(), {m.t[i + q], -1, -1}); } ind.push_back(el.size()); fs.push_back(fc); } Write_Obj_ElemJArray(f, m.x, ind, el); wrote(f, m.x, {}, {}, fs, {}); }
  else if (k == 2) { Mesh m = mesh(r, 3); VU fl; unsigned mx = 0; for (size_t i = 0; i < m.t.size() / 3; ++i) { fl.push_back(r(4)); mx = std::max(mx, fl.back()); } VVL fs, gs; for (unsigned g = 0; g <= mx; ++g) { gs.push_back({(long) g, (long) fs.size()}); for (size_t i = 0; i < fl.size(); ++i) if (fl[i] == g) fs.push_back({m.t[3 * i], -1, -1, m.t[3 * i + 1], -1, -1, m.t[3 * i + 2], -1, -1}); } Write_Obj_TriFlag(f, m.x, m.u, fl); wrote(f, m.x, {}, {}, fs, gs); }
  else if (k == 3) { std::vector<std::pair<VD, VU>> ms; VD x; VVL fs, gs; for (int n = 1 + r(3); n--;) { Mesh m = mesh(r, 3); if (r(4) == 0) { m.t.clear(); m.u.clear(); } long o = x.size() / 3; gs.push_back({(long) ms.size(), (long) fs.size()}); for (size_t i = 0; i < m.t.size(); i += 3) fs.push_back({o + m.t[i], -1, -1, o + m.t[i + 1], -1, -1, o + m.t[i + 2], -1, -1}); x.insert(x.end(), m.x.begin(), m.x.end()); ms.push_back({m.x, m.u}); } Write_Obj(f, ms); wrote(f, x, {}, {}, fs, gs); VD y; VU t; Read_Obj(y, t, f); VL all; for (auto &q : fs) for (size_t i = 0; i < q.size(); i += 3) all.push_back(q[i]); same("obj groups", cat(ex(x, 8), all), cat(ex(y, 8), il(t))); }
  else { Mesh m = mesh(r, 3); size_t nt = m.t.size() / 3; VD tex, nrm; int ntx = 1 + r(5), nnr = 1 + r(4); for (int i = 0; i < 2 * ntx; ++i) tex.push_back(r.range(-9, 9) / 8.); static const int U[5][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, 0, -1}}; for (int i = 0; i < nnr; ++i) { auto &u = U[r(5)]; nrm.insert(nrm.end(), u, u + 3); } VU ft, fn; VVL fs, gs; for (size_t i = 0; i < nt; ++i) { VL q; for (int c = 0; c < 3; ++c) { ft.push_back(r(ntx)); fn.push_back(r(nnr)); q.insert(q.end(), {m.t[3 * i + c], (long) ft.back(), (long) fn.back()}); } fs.push_back(q); }
    std::vector<S> names = {"default"}; VU gi = {0}; int at = r(nt + 1); for (int g = 1; g <= r(4); ++g) { gi.push_back(at); gs.push_back({10l + g, at}); names.push_back("part" + std::to_string(10 + g)); at += r(nt - at + 1); } gi.push_back(nt); Write_WavefrontObj(f, m.x, tex, nrm, m.u, ft, fn, names, gi); wrote(f, m.x, tex, nrm, fs, gs);
    S mtl; VD x2, t2, n2; VU ind, fx, ft2, fn2, gi2; std::vector<S> gn2; Read_WavefrontObjWithMaterialMixedElem(mtl, x2, t2, n2, ind, fx, ft2, fn2, gn2, gi2, std::filesystem::path(f)); VL a, b; for (auto &s : names) a.push_back(nameid(s)); for (auto &s : gn2) b.push_back(nameid(s)); same("wavefront groups", cat(a, il(gi)), cat(b, il(gi2))); same("wavefront", cat(cat(cat(ex(m.x, 8), ex(tex, 8)), ex(nrm, 8)), cat(cat(il(m.u), il(ft)), il(fn))), cat(cat(cat(ex(x2, 8), ex(t2, 8)), ex(n2, 8)), cat(cat(il(fx), il(ft2)), il(fn2)))); } }
static void other_mesh(Rng &r) { int k = r(8); S f = path("m.dat");
  if (k == 0) { Mesh m = mesh(r, 3); VD x(3, 1.); VU t(2, 1u); if (r(2)) Write_Ply(f, m.x, m.t); else Write_Ply(f, m.x.size() / 3, m.x.data(), m.u.size() / 3, m.u.data()); if (r(3) == 0) { S s = get(f); size_t p = s.find("element vertex"); S c; for (int n = 1 + r(3); n--;) c += "comment made by hand " + std::to_string(n) + "\n"; s.insert(p, c); put(f, s); } if (r(2)) Read_Ply(x, t, f); else { int nn, nt; double *px = nullptr; unsigned *pt = nullptr; Read_Ply(f, nn, px, nt, pt); x.assign(px, px + 3 * nn); t.assign(pt, pt + 3 * nt); } same("ply", cat(ex(m.x, 8), il(m.t)), cat(ex(x, 8), il(t))); }
  else if (k == 1) { Mesh m = mesh(r, 3); { std::ofstream o(f); Write_MeshTri3D(o, m.x, m.t); } VD x; VI t; { std::ifstream i(f); Read_MeshTri3D(i, x, t); } same("tri3d", cat(ex(m.x, 8), il(m.t)), cat(ex(x, 8), il(t))); Mesh q = mesh(r, 3); { std::ofstream o(f); VD x2(q.x.begin(), q.x.begin() + q.x.size() / 3 * 2); Write_MeshTri3D(o, x2, q.t, 2); VL e{(long) x2.size() / 2, (long) q.t.size() / 3}, g; for (double v : x2) e.push_back(EX(v, 8)); for (int v : q.t) e.push_back(v); o.close(); std::istringstream is(get(f)); double v; size_t n = 0; while (is >> v) { g.push_back(n < 2 || n >= 2 + x2.size() ? EX(v) : RX(v, 8, 1e-4)); ++n; } same("tri2d", e, g); } }
  else if (k == 2) { Mesh m = mesh(r, 3, 9); for (auto &v : m.x) v *= 8; Write_STL(f, m.x, m.t); VL g, n; std::istringstream is(get(f)); S w; double a, b, c; while (is >> w) { if (w == "normal") { is >> a >> b >> c; for (double v : {a, b, c}) n.push_back(RX(v, 1000, .51)); } if (w == "vertex") { is >> a >> b >> c; for (double v : {a, b, c}) g.push_back(EX(v)); } } for (long &q : n) if (q == BAD) q = 9999; VL xi; for (double v : m.x) xi.push_back(EX(v)); J("Stl").arr("xyz", xi).arr("tri", m.t).arr("got", g).arr("nrm", n).emit(); }
  else if (k == 3) { static const int T[4] = {5, 9, 10, 12}, NN[4] = {3, 4, 4, 8}; int q = r(4), nn = NN[q]; Mesh m = mesh(r, nn); int np = m.x.size() / 3, data = r(3), stride = data == 1 ? 3 + r(2) : 1 + r(2); VD val; bool d2 = r(4) == 0; VD x2; if (d2) for (int i = 0; i < np; ++i) { x2.push_back(m.x[3 * i]); x2.push_back(m.x[3 * i + 1]); m.x[3 * i + 2] = 0; } { std::ofstream o(f); WriteVTK_Points(o, "a name", d2 ? x2.data() : m.x.data(), np, d2 ? 2 : 3); WriteVTK_Cells(o, T[q], m.t.data(), m.t.size() / nn); for (int i = 0; i < np * stride; ++i) val.push_back(r.range(-50, 50) / 8.); if (data) { o << "POINT_DATA " << np << std::endl; if (data == 1) WriteVTK_Data_PointVec(o, val.data(), np, stride, 3); else WriteVTK_Data_PointScalar(o, val.data(), np, stride); } } VL e; for (int i = 0; i < np; ++i) for (int c = 0; c < (data == 0 ? 0 : data == 1 ? 3 : 1); ++c) e.push_back(EX(val[i * stride + c], 8)); VD x, v(2, 9.); VI t; int ty = -1; ReadVTK(x, ty, t, v, f); same("vtk", cat(cat(ex(m.x, 8), il(m.t)), cat(VL{T[q]}, e)), cat(cat(ex(x, 8), il(t)), cat(VL{ty}, ex(v, 8)))); }
  else if (k == 4) { Mesh m = mesh(r, 3); int np = m.x.size() / 3; VI map; for (int i = 0; i < np; ++i) if (r(3)) map.push_back(i); if (map.size() < 3) { map = {0, 1, 2}; } for (int i = map.size(); i > 1; --i) std::swap(map[i - 1], map[r(i)]); for (auto &t : m.t) t %= (int) map.size(); int st = 1 + r(2), of = r(st); VD val; for (int i = 0; i < np * st; ++i) val.push_back(r.range(-9, 9)); WriteVTK_MapTriScalar(f, "n", m.x, map, m.t, val, st, of); VL ex0, ev; for (int i : map) { for (int c = 0; c < 3; ++c) ex0.push_back(EX(m.x[3 * i + c], 8)); ev.push_back(EX(val[i * st + of])); } VD x, v; VI t; int ty; ReadVTK(x, ty, t, v, f); same("vtk of a part", cat(cat(ex0, il(m.t)), cat(VL{5}, ev)), cat(cat(ex(x, 8), il(t)), cat(VL{ty}, ex(v, 1)))); }
  else if (k == 5) { Mesh m = mesh(r, 6); VI a, b, c; VL cells, types; for (int n = r(4); n--;) { a.insert(a.end(), m.t.begin(), m.t.begin() + 4); } for (int n = r(3); n--;) b.insert(b.end(), m.t.begin(), m.t.begin() + 5); for (int n = r(3); n--;) c.insert(c.end(), m.t.begin(), m.t.begin() + 6); VL e; size_t ne = a.size() / 4 + b.size() / 5 + c.size() / 6, nb = 0; auto add = [&](const VI &v, int n, int ty) { for (size_t i = 0; i < v.size(); i += n) { e.push_back(n); for (int q = 0; q < n; ++q) e.push_back(v[i + q]); types.push_back(ty); nb += n + 1; } }; add(a, 4, 10); add(b, 5, 14); add(c, 6, 13); { std::ofstream o(f); WriteVTK_Cells(o, a, b, c); } VL exp{(long) ne, (long) nb}; exp.insert(exp.end(), e.begin(), e.end()); exp.push_back(ne); exp.insert(exp.end(), types.begin(), types.end()); VL g; std::istringstream is(get(f)); S w; while (is >> w) if (isdigit((unsigned char) w[0])) g.push_back(atol(w.c_str())); same("vtk cells", exp, g); }
  else if (k == 6) { Mesh m = mesh(r, 4); int np = m.x.size() / 3, nt = m.t.size() / 4, na = r(3), mk = r(2), ea = r(2), fm = r(2), nf = r(5); VI tri; for (int i = 0; i < nf * 3; ++i) tri.push_back(r(np)); { std::ofstream o(f + ".node"); o << np << " 3 " << na << " " << mk << "\n"; for (int i = 0; i < np; ++i) { o << i << "  " << m.x[3 * i] << " " << m.x[3 * i + 1] << "  " << m.x[3 * i + 2]; for (int q = 0; q < na; ++q) o << " " << 0.5 + q; if (mk) o << " " << r(3) - 1; o << "\n"; } } { std::ofstream o(f + ".ele"); o << nt << " 4 " << ea << "\n"; for (int i = 0; i < nt; ++i) { o << i; for (int q = 0; q < 4; ++q) o << "  " << m.t[4 * i + q]; if (ea) o << " " << r(5); o << "\n"; } } { std::ofstream o(f + ".face"); o << nf << " " << fm << "\n"; for (int i = 0; i < nf; ++i) { o << i; for (int q = 0; q < 3; ++q) o << " " << tri[3 * i + q]; if (fm) o << " -1"; o << "\n"; } o << "# Generated by hand\n"; } VD x; VI t, s; Read_MeshTet3D_TetGen(f, x, t, s); VL fl; for (int i = 0; i < nf; ++i) { fl.push_back(tri[3 * i]); fl.push_back(tri[3 * i + 2]); fl.push_back(tri[3 * i + 1]); } same("tetgen", cat(cat(ex(m.x, 8), il(m.t)), fl), cat(cat(ex(x, 8), il(t)), il(s))); }
  else { Mesh m = mesh(r, 3, 99); int np = m.x.size() / 3; VL ids; for (int i = 0; i < np; ++i) ids.push_back(1 + i * (1 + r(2)) + (i ? 0 : 0)); VL perm; long id = 0; ids.clear(); for (int i = 0; i < np; ++i) { id += 1 + r(3); ids.push_back(id); } for (int i = np; i > 1; --i) std::swap(ids[i - 1], ids[r(i)]); S s; char b[200]; int lng = r(3) == 0; if (r(2)) s += "$ comment\n"; if (lng) s += "$ " + S(300, 'c') + "\n"; VVL nd, tr; for (int i = 0; i < np; ++i) { snprintf(b, 200, "GRID    %8ld%8s%8.3f%8.3f%8.3f\n", ids[i], r(2) ? "" : "0", m.x[3 * i], m.x[3 * i + 1], m.x[3 * i + 2]); s += b; nd.push_back({ids[i], EX(m.x[3 * i], 8), EX(m.x[3 * i + 1], 8), EX(m.x[3 * i + 2], 8)}); } if (r(2)) s += "PSHELL  1       1       0.1\n"; for (size_t i = 0; i < m.t.size(); i += 3) { snprintf(b, 200, "CTRIA3  %8ld%8d%8ld%8ld%8ld\n", (long) i / 3 + 1, 1, ids[m.t[i]], ids[m.t[i + 1]], ids[m.t[i + 2]]); s += b; tr.push_back({ids[m.t[i]], ids[m.t[i + 1]], ids[m.t[i + 2]]}); } if (r(2)) s += "ENDDATA\n"; else if (r(2)) s.pop_back(); put(f, s); VD x(2, 1.); VU t(3, 1u); Read_MeshTri3D_Nas(x, t, f.c_str()); J("Nas").arr2("nodes", nd).arr2("ids", tr).arr("xyz", ex(x, 8)).arr("tri", il(t)).emit(); } }
static void image(Rng &r) { int w = 1 + r(5), h = 1 + r(4), cut = 0, magic = 1; VL px; for (int i = 0; i < 3 * w * h; ++i) px.push_back(r(256)); S f = path("i.ppm"), s; bool bin = r(2);
  if (bin) { if (r(6) == 0) { s = "P5"; magic = 0; } else s = "P6"; s += "\n"; int st = r(3); if (r(2)) s += "# comment 1 2\n"; if (st == 0) s += std::to_string(w) + " " + std::to_string(h) + "\n255\n"; else if (st == 1) s += std::to_string(w) + " " + std::to_string(h) + " 255\n"; else s += std::to_string(w) + "\n" + (r(2) ? "# second\n" : "") + std::to_string(h) + "\n255\n"; for (long v : px) s += (char) v; if (r(6) == 0) { cut = 1 + r(3 * w * h); s.resize(s.size() - cut); } put(f, s); std::vector<unsigned char> im(r(2) ? 7 : 0, 9); int W = -1, H = -1; bool ret = LoadImage_PPMBinary(f, im, W, H); VL g; for (int i = 0; i < 3 * w * h && i < (int) im.size(); ++i) g.push_back(im[i]); J("Image").kv("ret", ret).kv("cut", cut).kv("magic", magic).kv("pw", w).kv("ph", h).kv("w", W).kv("h", H).arr("px", px).arr("got", g).emit(); }
  else { if (r(6) == 0) { s = "P2"; magic = 0; } else s = "P3"; s += "\n" + std::to_string(w) + " " + std::to_string(h) + "\n255\n"; for (size_t i = 0; i < px.size(); ++i) { s += std::to_string(px[i]); s += r(4) == 0 ? "\n" : r(2) ? " " : "  "; } put(f, s); std::vector<unsigned char> im(r(2) ? 7 : 0, 9); unsigned W = 0, H = 0; int ret = LoadImage_PPMAscii(W, H, im, f); J("Image").kv("ret", ret == 0).kv("cut", 0).kv("magic", magic).kv("pw", w).kv("ph", h).kv("w", W).kv("h", H).arr("px", px).arr("got", il(im)).emit(); } }
static void array(Rng &r) { static const char *TY[] = {"<f4", "<f8", ">f8", "<i4", "<i8"}; int ty = r(3) ? r(2) : r(5), nd = 1 + r(2), fo = r(3) == 0; VL sh; int n = 1; for (int i = 0; i < nd; ++i) { sh.push_back(1 + r(5)); n *= sh.back(); } VL d; S body; for (int i = 0; i < n; ++i) { long v = r.range(-99, 99); d.push_back(v); char b[8]; int k; if (ty == 0) { float q = v / 8.f; memcpy(b, &q, k = 4); } else if (ty == 1 || ty == 2) { double q = v / 8.; memcpy(b, &q, k = 8); if (ty == 2) std::reverse(b, b + 8); } else if (ty == 3) { int q = v; memcpy(b, &q, k = 4); } else { long q = v; memcpy(b, &q, k = 8); } body.append(b, k); }
  S shs = nd == 1 ? "(" + std::to_string(sh[0]) + ",)" : "(" + std::to_string(sh[0]) + ", " + std::to_string(sh[1]) + ")"; S hd = S("{'descr': '") + TY[ty] + "', 'fortran_order': " + (fo ? "True" : "False") + ", 'shape': " + shs + ", }"; int al = r(3) == 0 ? 16 : 64; if (r(5) == 0) hd += S(200, ' '); while ((10 + hd.size() + 1) % al) hd += ' '; hd += '\n'; int magic = 1, cut = 0; S s = "\x93NUMPY"; if (r(8) == 0) { s[1 + r(5)] ^= 1; magic = 0; } s += '\1'; s += '\0'; s += (char) (hd.size() & 255); s += (char) (hd.size() >> 8); s += hd + body; if (r(7) == 0) { cut = 1 + r(body.size()); s.resize(s.size() - cut); } S f = path("a.npy"); put(f, s);
  for (int k = 0; k < 3; ++k) { int n0 = -5, n1 = -5; VL got; bool ret; if (k == 0) { std::vector<float> a(3, 1.f); ret = LoadNumpy_2Dim(n0, n1, a, f); if (ret) got = ex(a, 8); } else if (k == 1) { VD a; ret = LoadNumpy_2Dim(n0, n1, a, f); if (ret) got = ex(a, 8); } else { std::vector<float> a(2, 1.f); ret = LoadNumpy_1DimF(n0, a, f); if (ret) got = ex(a, 8); } VL sz{n0}; if (k < 2) sz.push_back(n1); J("Array").ks("type", TY[ty]).ks("want", k == 1 ? "<f8" : "<f4").arr("shape", sh).kv("dims", k == 2 ? 1 : 2).kv("fortran", fo).kv("cut", cut).kv("magic", magic).arr("d", d).kv("ret", ret).arr("n", sz).arr("got", got).emit(); } }
static void misc(Rng &r) { int k = r(3); S f = path("x.txt");
  if (k == 0) { VL e, g; S s; int n = 1 + r(3); for (int i = 0; i < n; ++i) { s += "newmtl m" + std::to_string(i + 3) + "\n"; e.push_back(i + 3); if (r(2)) s += "# " + S(r(2) ? 300 : 5, 'z') + "\n"; long q[12]; for (auto &v : q) v = r(9); const char *nm[] = {"Kd", "Ka", "Ks", "Ke"}; VI o = {0, 1, 2, 3}; for (int a = 4; a > 1; --a) std::swap(o[a - 1], o[r(a)]); for (int a : o) { s += r(2) ? "\t" : ""; s += nm[a]; for (int c = 0; c < 3; ++c) s += " " + num(r, q[a * 3 + c] / 8.); s += "\n"; } e.insert(e.end(), q, q + 12); long ns = r(800), il0 = r(4); s += "Ns " + num(r, ns / 8.) + "\nillum " + std::to_string(il0) + "\n"; if (r(2)) s += "\n"; int mp = r(3); if (mp) s += "map_Kd pic" + std::to_string(mp) + ".png\n"; e.insert(e.end(), {ns, il0, mp}); } put(f, s); std::vector<MaterialWavefrontObj> ms(r(2)); Read_WavefrontMaterial(f, ms); for (auto &m : ms) { g.push_back(nameid(m.name_mtl)); for (auto K : {m.Kd, m.Ka, m.Ks, m.Ke}) for (int c = 0; c < 3; ++c) g.push_back(EX(K[c], 8)); g.push_back(EX(m.Ns, 8)); g.push_back(m.illum); g.push_back(m.map_Kd.empty() ? 0 : nameid(m.map_Kd.substr(0, m.map_Kd.find('.')))); } same("materials", e, g); }
  else if (k == 1) { VL e; std::vector<float> p; for (int n = r(7); n--;) { long v = r.range(-999, 999); e.push_back(v); p.push_back(v / 8.f); } WriteParam(f, p); if (!p.empty() && r(3) == 0) { S s = get(f); s.pop_back(); put(f, s); } std::vector<float> q(r(2) * 3, 1.f); bool ok = ReadParam(q, f); same("parameters", cat({1}, e), cat({ok}, ex(q, 8))); S s; for (int n = r(40); n--;) s += (char) (r(3) ? 32 + r(90) : r(256)); put(f, s); std::vector<char> c(3, 'q'); ok = GetFileContents(c, f); S t(c.begin(), c.end()); same("contents", cat(cat({1}, cs(s)), {0}), cat(cat({ok}, cs(t.substr(0, t.size() - 1))), {(unsigned char) t.back()})); same("text", cs(s), cs(LoadFile(f))); same("exists", {1, 0}, {isFileExists(f), isFileExists(f + "no")}); }
  else for (int n = 0; n < 6; ++n) { S s; for (int q = 1 + r(8); q--;) s += "ab./.c/"[r(7)]; J("Path").arr("s", cs(s)).arr("stem", cs(pathRemoveExtension(s))).arr("ext", cs(pathGetExtension(s))).arr("dir", cs(getPathDir(s))).emit(); } }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  char tmpl[] = "/tmp/vh_files_XXXXXX"; if (!mkdtemp(tmpl)) return 95; dir = tmpl;
  auto lines = read_lines(input_path); const size_t G = 8;
  for (size_t b = 0; b < lines.size(); b += G) run_case([&] { Rng r(seed * 131 + cur_case); for (size_t i = b; i < b + G && i < lines.size(); ++i) { VVL L; for (size_t k = 0; k < lines[i].size();) { size_t n = lines[i][k]; L.push_back(VL(lines[i].begin() + k + 1, lines[i].begin() + k + 1 + n)); k += n + 1; } read_all(r, L, Style{r(4) == 0, r(4) == 0, r(5) == 0}); } });
  int nr = thorough ? 6000 : 900;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 577 + cur_case); int k = r(7);
    if (k < 2) { VVL L; long nv = 0, nt = 0, nn = 0, ng = 0; int only = r(4), rel = r(3); static const int NR[6][3] = {{0, 0, 2}, {3, 4, 0}, {0, -3, 4}, {2, 3, 6}, {-1, 0, 0}, {0, 4, 3}}; for (int n = 6 + r(25); n--;) { int a = r(12); if (nv < 4 || a < 3) { L.push_back({1, r.range(-999, 999), r.range(-999, 999), r.range(-999, 999)}); ++nv; } else if (a == 3) { L.push_back({2, r.range(-8, 8), r.range(-8, 8)}); ++nt; } else if (a == 4) { auto &q = NR[(r(6) == 3) ? 0 : (int[]){0, 1, 2, 4, 5}[r(5)]]; L.push_back({3, q[0], q[1], q[2]}); ++nn; } else if (a < 9) { int c = only == 0 ? 3 : only == 1 ? 4 : 3 + r(r(6) == 0 ? 40 : 4); VL l = {4}; bool t = nt && r(2), m = nn && r(2); auto ref = [&](long n) { long i = 1 + r(n); return rel == 0 || (rel == 1 && r(2)) ? i : i - n - 1; }; for (int q = 0; q < c; ++q) { l.push_back(ref(nv)); l.push_back(t ? ref(nt) : 0); l.push_back(m ? ref(nn) : 0); } L.push_back(l); } else if (a == 9) L.push_back({5, ng++ % 3}); else if (a == 10 && r(3) == 0) L.push_back({6, 1 + r(5)}); else L.push_back({0}); } read_all(r, L, Style{r(4) == 0, r(2), r(4) == 0}); }
    else if (k == 2) obj_write(r); else if (k == 3 || k == 4) other_mesh(r); else if (k == 5) { image(r); array(r); } else misc(r); });
  std::error_code ec; std::filesystem::remove_all(dir, ec);
}
