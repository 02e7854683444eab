// C15: histories of a block sparse matrix
#include "vh.h"
#include <set>
#include <complex>
#include <algorithm>
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_solver_block_sparse.h"
using namespace delfem2; using namespace vh;
typedef std::vector<unsigned> VU; typedef std::complex<double> CD;
static long P(double v) { return EX(v); } static long P(float v) { return EX(v); }
static long P(CD v) { return EX(v.real() + 1000 * v.imag()); } // linear in real factors
template<class T> static T val(Rng &r) { return T(r.range(-3, 3)); }
template<> CD val<CD>(Rng &r) { return CD(r.range(-3, 3), r.range(-2, 2)); }
template<class T, int nr, int nc, int w> static void mergeFix(CMatrixSparse<T> &A, const VU &rows, const VU &cols, const std::vector<T> &e, VU &buf) {
  static T em[nr][nc][w][w]; size_t k = 0; for (auto &a : em) for (auto &b : a) for (auto &c : b) for (auto &d : c) d = e[k++]; Merge<nr, nc, w, w, T>(A, rows.data(), cols.data(), em, buf); }
template<class T, int nr, int nc> static void mergeW(CMatrixSparse<T> &A, const VU &rows, const VU &cols, const std::vector<T> &e, VU &buf, unsigned w, bool sc) {
  if (w == 1 && sc) { static T em[nr][nc]; size_t k = 0; for (auto &a : em) for (auto &b : a) b = e[k++]; Merge<nr, nc, T>(A, rows.data(), cols.data(), em, buf); }
  else if (w == 1) mergeFix<T, nr, nc, 1>(A, rows, cols, e, buf); else if (w == 2) mergeFix<T, nr, nc, 2>(A, rows, cols, e, buf); else if (w == 3) mergeFix<T, nr, nc, 3>(A, rows, cols, e, buf); else mergeFix<T, nr, nc, 4>(A, rows, cols, e, buf); }
template<class T> struct Run {
  Rng &r; unsigned n, w; VU ind, ptr, buf; CMatrixSparse<T> A; std::vector<std::set<unsigned>> rows; long scaled = 0;
  explicit Run(Rng &r_) : r(r_) { init(); }
  std::string dense() { unsigned N = n * w; std::vector<std::vector<T>> d(N, std::vector<T>(N, T(0))); for (unsigned i = 0; i < n; ++i) { for (unsigned a = 0; a < w; ++a) for (unsigned b = 0; b < w; ++b) { if (!A.val_dia_.empty()) d[i * w + a][i * w + b] += A.val_dia_[(i * w + a) * w + b];
      for (unsigned k = A.col_ind_[i]; k < A.col_ind_[i + 1]; ++k) d[i * w + a][A.row_ptr_[k] * w + b] += A.val_crs_[(k * w + a) * w + b]; } }
    std::string s = "["; for (unsigned i = 0; i < N; ++i) { std::vector<long> v; for (auto x : d[i]) v.push_back(P(x)); s += (i ? "," : "") + J::str(v); } return s + "]"; }
  std::string pats() { std::string s = "["; for (unsigned i = 0; i < n; ++i) s += (i ? "," : "") + J::str(VU(A.row_ptr_.begin() + A.col_ind_[i], A.row_ptr_.begin() + A.col_ind_[i + 1])); return s + "]"; }
  J &show(J &j) { return j.raw("d", dense()).raw("pat", pats()); }
  void init() { n = 1 + r(4); w = 1 + r(n > 3 ? 4 : 5); ind.assign(1, 0); ptr.clear(); rows.assign(n, {}); bool sym = r(2); int den = 1 + r(4); std::vector<std::vector<char>> g(n, std::vector<char>(n, 0)); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i != j && (den > 2 || r(2))) { g[i][j] = 1; if (sym) g[j][i] = 1; }
    std::vector<VU> pt(n); for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) if (g[i][j]) pt[i].push_back(j); for (size_t k = pt[i].size(); k-- > 1;) std::swap(pt[i][k], pt[i][r(k + 1)]); ptr.insert(ptr.end(), pt[i].begin(), pt[i].end()); ind.push_back(ptr.size()); for (unsigned j : pt[i]) rows[i].insert(j); rows[i].insert(i); }
    if (r(3) == 0) A.Clear(); A.Initialize(n, w, true); A.SetPattern(ind.data(), ind.size(), ptr.data(), ptr.size()); J j("Init"); j.kv("n", n).kv("w", w).arr2("want", pt); show(j).emit(); scaled = 0; }
  std::vector<int> flags() { std::vector<int> f(n * w, 0); int m = r(3); for (int &x : f) x = m == 0 ? 0 : r(m + 1) == 0 ? 1 + r(2) : 0; return f; }
  void op(int o) {
    unsigned N = n * w;
    if (o <= 3) { if (A.val_crs_.empty()) { o = 5; } else { VU ro, co; unsigned R = 1 + r(3), C = 1 + r(3); bool same = r(2); if (same) C = R; for (int t = 0; t < 200; ++t) { ro.clear(); co.clear(); for (unsigned i = 0; i < R; ++i) ro.push_back(r(n)); if (same) co = ro; else for (unsigned i = 0; i < C; ++i) co.push_back(r(n)); bool ok = true; for (unsigned a : ro) for (unsigned b : co) ok &= rows[a].count(b) > 0; if (r(4)) { std::set<unsigned> s(ro.begin(), ro.end()); ok &= s.size() == ro.size(); } if (ok) break; ro.clear(); }
        if (ro.empty()) { R = C = 1; ro = co = {(unsigned) r(n)}; } C = co.size(); std::vector<T> e; for (unsigned i = 0; i < R * C * w * w; ++i) e.push_back(val<T>(r));
        if (w <= 4 && o != 1 && R == 2 && C == 2) mergeW<T, 2, 2>(A, ro, co, e, buf, w, o == 2); else if (w <= 4 && o != 1 && R == 3 && C == 3) mergeW<T, 3, 3>(A, ro, co, e, buf, w, o == 2); else if (w <= 4 && o != 1 && R == 2 && C == 3) mergeW<T, 2, 3>(A, ro, co, e, buf, w, o == 2); else if (w <= 4 && o != 1 && R == 3 && C == 1) mergeW<T, 3, 1>(A, ro, co, e, buf, w, o == 2);
        else Mearge(A, R, ro.data(), C, co.data(), w * w, e.data(), buf);
        std::vector<long> le; for (auto x : e) le.push_back(P(x)); J j("Merge"); j.arr("rows", ro).arr("cols", co).arr("e", le); show(j).emit(); return; } }
    if (o == 4) { auto f = flags(); int k = r(5); if (k == 0) { int v = r.range(-2, 3); A.SetFixedBC_Dia(f.data(), T(v)); J j("FixDia"); j.kv("v", v).arr("fl", f); show(j).emit(); } else if (k == 1) { A.SetFixedBC_Row(f.data()); J j("FixRow"); j.arr("fl", f); show(j).emit(); } else if (k == 2) { A.SetFixedBC_Col(f.data()); J j("FixCol"); j.arr("fl", f); show(j).emit(); } else { A.SetFixedBC(f.data()); J j("Fix"); j.arr("fl", f); show(j).emit(); } }
    if (o == 5) { int v = r.range(-2, 4); if (r(2)) { A.AddDia(T(v)); J j("AddDia"); j.kv("v", v); show(j).emit(); } else lump(); }
    if (o == 6) { if (scaled++ > 3) return; scale(); }
    if (o == 7) { A.setZero(); scaled = 0; J j("Zero"); show(j).emit(); }
    if (o == 8) { CMatrixSparse<T> C; if (r(2)) { C.Initialize(2, 3, true); } C = A; A.AddDia(T(5)); A.setZero(); A.Clear(); if (r(2)) { CMatrixSparse<T> E(C); C.setZero(); A = E; } else A = C; J j("Copy"); show(j).emit(); }
    if (o == 9 && r(3) == 0) init(); }
  void lump() {} void scale() {}
  std::vector<T> vec(size_t k) { std::vector<T> v; for (size_t i = 0; i < k; ++i) v.push_back(T(r.range(-3, 3))); return v; }
  static std::vector<long> lv(const std::vector<T> &v) { std::vector<long> l; for (auto x : v) l.push_back(P(x)); return l; }
  void query() { unsigned N = n * w; for (int t = 0; t < 2; ++t) { auto x = vec(N), y0 = vec(N); int al = r.range(-2, 3), be = r.range(-1, 2); auto y = y0; if (t) A.MatTVec(y.data(), T(al), x.data(), T(be)); else A.MatVec(y.data(), T(al), x.data(), T(be)); J(t ? "MTV" : "MV").kv("al", al).kv("be", be).arr("x", lv(x)).arr("y0", lv(y0)).arr("y", lv(y)).emit(); }
    if (w == 1) { unsigned k = 1 + r(4); auto x = vec(n * k), y0 = vec(n * k); int al = r.range(-2, 3), be = r.range(-1, 2); auto y = y0; A.MatVecDegenerate(y.data(), k, T(al), x.data(), T(be)); J("MVK").kv("k", k).kv("al", al).kv("be", be).arr("x", lv(x)).arr("y0", lv(y0)).arr("y", lv(y)).emit(); } sym(); }
  void sym() {} };
template<> void Run<double>::sym() { if (r(3) == 0) { for (unsigned i = 0; i < n; ++i) for (unsigned k = A.col_ind_[i]; k < A.col_ind_[i + 1]; ++k) for (unsigned q = A.col_ind_[A.row_ptr_[k]]; q < A.col_ind_[A.row_ptr_[k] + 1]; ++q) if (A.row_ptr_[q] == i && i < A.row_ptr_[k]) { VU nb{i, A.row_ptr_[k]}; std::vector<double> e(4 * w * w, 0.); for (unsigned a = 0; a < w; ++a) for (unsigned b = 0; b < w; ++b) { double d = A.val_crs_[(k * w + a) * w + b] - A.val_crs_[(q * w + b) * w + a]; e[((2 * 1 + 0) * w + b) * w + a] = d; } Mearge(A, 2, nb.data(), 2, nb.data(), w * w, e.data(), buf); J j("Merge"); j.arr("rows", nb).arr("cols", nb).arr("e", lv(e)); show(j).emit(); } }
  J("Sym").kv("zero", CheckSymmetry(A) == 0.).emit(); }
template<> void Run<double>::lump() { std::vector<double> lm = vec(n); int s = r.range(-2, 2); A.AddDia_LumpedMass(lm.data(), s); J j("Lump"); j.arr("lm", lv(lm)).kv("s", s); show(j).emit(); }
template<> void Run<double>::scale() { std::vector<double> s; bool b = r(2); for (unsigned i = 0; i < (b ? n : n * w); ++i) s.push_back(r(4) ? 1 + r(2) : -r(2)); if (b) MatSparse_ScaleBlk_LeftRight(A, s.data()); else MatSparse_ScaleBlkLen_LeftRight(A, s.data()); J j(b ? "ScaleB" : "ScaleL"); j.arr("s", lv(s)); show(j).emit(); }
template<class T> static void hist(Rng &r, const std::vector<long> &h) { Run<T> q(r); for (long o : h) { q.op((int) o); if (r(3) == 0) q.query(); } q.query(); }
static void any(Rng &r, const std::vector<long> &h) { int t = r(4); if (t < 2) hist<double>(r, h); else if (t == 2) hist<float>(r, h); else hist<CD>(r, h); }
// the solver front end: the same assembly through its own functions
static void front(Rng &r) { unsigned n = 2 + r(3); const unsigned w = 2; VU ind{0}, ptr; std::vector<VU> pt(n); for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) if (i != j) { ptr.push_back(j); pt[i].push_back(j); } ind.push_back(ptr.size()); }
  LinearSystemSolver_BlockSparse S; S.Initialize(n, w, ind, ptr); Rng r2(1); Run<double> q(r2); q.n = n; q.w = w; auto sh = [&](J &j) { q.A = S.matrix; q.show(j).emit(); };
  { J j("Init"); j.kv("n", n).kv("w", w).arr2("want", pt); sh(j); } for (int t = 0; t < 2; ++t) { S.BeginMerge(); { J j("Zero"); sh(j); } 
    for (int k = 0; k < 4; ++k) { VU nb{(unsigned) r(n), 0, 0}; nb[1] = (nb[0] + 1 + r(n - 1)) % n; double em[2][2][2][2]; std::vector<long> le; for (auto &a : em) for (auto &b : a) for (auto &c : b) for (auto &d : c) { d = r.range(-3, 3); le.push_back((long) d); } nb.resize(2); S.Merge<2, 2, 2, 2>(nb.data(), nb.data(), em); { J j("Merge"); j.arr("rows", nb).arr("cols", nb).arr("e", le); sh(j); } int i = r(n * w), v = r.range(-2, 5); S.AddValueToDiagonal(i / w, i % w, v); { J j("AddVal"); j.kv("i", i).kv("v", v); sh(j); } } } }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  for (auto &v : read_lines(input_path)) run_case([&] { Rng r(seed * 131 + cur_case); any(r, v); });
  int nr = thorough ? 2500 : 300;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 577 + cur_case); std::vector<long> h; int k = 4 + r(10); while (k--) h.push_back(1 + r(9)); any(r, h); });
  for (int i = 0; i < nr / 10; ++i) run_case([&] { Rng r(seed * 353 + cur_case); front(r); });
}
