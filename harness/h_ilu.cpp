// C16: incomplete and complete factorizations, banded solvers
#include "vh.h"
#include <set>
#include <complex>
#include <cstring>
#include <algorithm>
#include <memory>
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/ls_solver_block_sparse_ilu.h"
#include "delfem2/ls_tridiagonal.h"
#include "delfem2/ls_pentadiagonal.h"
using namespace delfem2; using namespace vh;
typedef std::vector<unsigned> VU; typedef std::vector<double> VD; typedef std::complex<double> CD;
typedef std::vector<VD> Mat;
static std::string mstr(const Mat &m) { std::string s = "["; for (size_t i = 0; i < m.size(); ++i) { std::vector<long> v; for (double x : m[i]) v.push_back(EX(x)); s += (i ? "," : "") + J::str(v); } return s + "]"; }
static std::vector<long> lv(const VD &v, double tol = 0.) { std::vector<long> l; for (double x : v) l.push_back(tol > 0 ? RX(x, 1., tol) : EX(x)); return l; }
static VD mul(const Mat &m, const VD &x) { VD y(m.size(), 0.); for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < x.size(); ++j) y[i] += m[i][j] * x[j]; return y; }
static Mat zeros(unsigned n) { return Mat(n, VD(n, 0.)); }
static VD ivec(Rng &r, size_t n) { VD v; while (n--) v.push_back(r.range(-3, 3)); return v; }
typedef std::vector<std::vector<char>> Gr;
static std::vector<VU> rowsOf(Rng &r, const Gr &g) { std::vector<VU> pt(g.size()); for (size_t i = 0; i < g.size(); ++i) { for (size_t j = 0; j < g.size(); ++j) if (i != j && g[i][j]) pt[i].push_back(j); for (size_t k = pt[i].size(); k-- > 1;) std::swap(pt[i][k], pt[i][r(k + 1)]); } return pt; }
template<class T> static void setup(CMatrixSparse<T> &A, unsigned w, const std::vector<VU> &pt) { VU ind{0}, ptr; for (auto &p : pt) { ptr.insert(ptr.end(), p.begin(), p.end()); ind.push_back(ptr.size()); } A.Clear(); A.Initialize(pt.size(), w, true); A.SetPattern(ind.data(), ind.size(), ptr.data(), ptr.size()); A.setZero(); }
template<class T> static Gr graph(const CPreconditionerILU<T> &p) { Gr g(p.nblk, std::vector<char>(p.nblk, 0)); for (unsigned i = 0; i < p.nblk; ++i) for (unsigned k = p.colInd[i]; k < p.colInd[i + 1]; ++k) g[i][p.rowPtr[k]] = 1; return g; }
template<class T> static std::string prows(const CPreconditionerILU<T> &p) { std::string s = "["; for (unsigned i = 0; i < p.nblk; ++i) s += (i ? "," : "") + J::str(VU(p.rowPtr.begin() + p.colInd[i], p.rowPtr.begin() + p.colInd[i + 1])); return s + "]"; }
static void put(CMatrixSparse<double> &A, const Mat &d) { unsigned w = A.nrowdim_; for (unsigned i = 0; i < A.nrowblk_; ++i) for (unsigned a = 0; a < w; ++a) for (unsigned b = 0; b < w; ++b) { A.val_dia_[(i * w + a) * w + b] = d[i * w + a][i * w + b]; for (unsigned k = A.col_ind_[i]; k < A.col_ind_[i + 1]; ++k) A.val_crs_[(k * w + a) * w + b] = d[i * w + a][A.row_ptr_[k] * w + b]; } }
static void put(CMatrixSparse<CD> &A, const Mat &d) { auto at = [&](unsigned i, unsigned j) { return CD(d[i * 2][j * 2], d[i * 2 + 1][j * 2]); }; for (unsigned i = 0; i < A.nrowblk_; ++i) { A.val_dia_[i] = at(i, i); for (unsigned k = A.col_ind_[i]; k < A.col_ind_[i + 1]; ++k) A.val_crs_[k] = at(i, A.row_ptr_[k]); } }
// a matrix on the pattern g whose elimination on the pattern P has pivots 1 and -1 only; cx: 2x2 blocks stand for complex numbers
static bool unimodular(Rng &r, const Gr &g, const Gr &P, unsigned w, bool cx, Mat &A, Mat &G, int den) {
  unsigned n = g.size(), N = n * w; A = zeros(N); G = zeros(N); // G: lower with pivots, unit upper
  auto dot = [&](unsigned i, unsigned j, unsigned k0) { double s = 0; for (unsigned m = 0; m < k0; ++m) s += G[i][m] * G[m][j]; return s; };
  auto rnd = [&] { return (int) r(4) < den ? r.range(-1, 1) : 0; };
  for (unsigned bi = 0; bi < n; ++bi) {
    for (unsigned bj = 0; bj < n; ++bj) { if (bi != bj && !P[bi][bj]) continue; bool own = bi == bj || g[bi][bj]; int re = rnd(), im = rnd(), sg = r(2) ? 1 : -1;
      if (!cx) { if (!own) continue; for (unsigned a = 0; a < w; ++a) for (unsigned b = 0; b < w; ++b) A[bi * w + a][bj * w + b] = rnd(); }
      else if (own) { A[bi * 2][bj * 2] = A[bi * 2 + 1][bj * 2 + 1] = bi == bj ? sg : re; if (bi != bj) { A[bi * 2][bj * 2 + 1] = -im; A[bi * 2 + 1][bj * 2] = im; } } }
    if (cx) { // pivot = given real unit
      for (unsigned a = 0; a < 2; ++a) for (unsigned c = 0; c < N; ++c) { unsigned i = bi * 2 + a, bc = c / 2; if (bc != bi && !P[bi][bc]) continue; if (bc < bi) { double s = dot(i, c, c); G[i][c] = A[i][c] - s; } }
      // off-diagonal lower entries are eliminated scalar by scalar: blocks of the lower factor stay complex numbers because the pivots are real units
      double s[2][2]; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) s[a][b] = dot(bi * 2 + a, bi * 2 + b, bi * 2);
      double p0 = A[bi * 2][bi * 2]; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { A[bi * 2 + a][bi * 2 + b] = (a == b ? p0 : 0.) + s[a][b]; G[bi * 2 + a][bi * 2 + b] = a == b ? p0 : 0.; }
      for (unsigned a = 0; a < 2; ++a) for (unsigned c = bi * 2 + 2; c < N; ++c) if (P[bi][c / 2]) G[bi * 2 + a][c] = p0 * (A[bi * 2 + a][c] - dot(bi * 2 + a, c, bi * 2));
    } else for (unsigned i = bi * w; i < bi * w + w; ++i) for (unsigned c = 0; c < N; ++c) { unsigned bc = c / w; if (bc != bi && !P[bi][bc]) continue; double s = dot(i, c, std::min(i, c));
        if (c == i) { double pv = r(2) ? 1 : -1; A[i][c] = pv + s; G[i][c] = pv; } else if (c < i) G[i][c] = A[i][c] - s; else G[i][c] = (A[i][c] - s) * G[i][i]; } }
  for (auto &v : A) for (double x : v) if (std::fabs(x) > 300) return false;
  for (auto &v : G) for (double x : v) if (std::fabs(x) > 300) return false;
  return true; }
template<class T> static void incomplete(Rng &r, const Gr &g0, std::vector<int> fills, unsigned w, int nval) {
  const bool cx = !std::is_same<T, double>::value; const unsigned we = cx ? 2 : w; std::unique_ptr<CPreconditionerILU<T>> I(new CPreconditionerILU<T>()); Gr g = g0;
  for (size_t f = 0; f < fills.size(); ++f) { if (f && r(3) == 0) { for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g.size(); ++j) if (r(3) == 0) g[i][j] = !g[i][j]; }
    if (r(4) == 0) I->Clear(); auto pt = rowsOf(r, g); CMatrixSparse<T> A; setup(A, w, pt); int p = fills[f]; if (p == 0 && r(2)) I->SetPattern0(A); else I->Initialize_ILUk(A, p);
    { J j("Pattern"); j.kv("p", p).arr2("want", pt).raw("got", prows(*I)).emit(); } Gr P = graph(*I);
    for (int t = 0; t < nval; ++t) { Mat d, G; for (int k = 0; !unimodular(r, g, P, we, cx, d, G, k < 20 ? 3 : k < 40 ? 2 : 1); ++k) if (k > 80) return; put(A, d); I->CopyValue(A);
      if (r(4) == 0) { I->Decompose(); I->CopyValue(A); } bool ok = I->Decompose(); if (r(4) == 0) { std::unique_ptr<CPreconditionerILU<T>> K(new CPreconditionerILU<T>(*I)); I.swap(K); }
      std::vector<VD> rs, zs, xs; auto rhs = [&](unsigned N) { VD x = ivec(r, N), u = x, y(N, 0.); for (unsigned i = 0; i < N; ++i) for (unsigned j = i + 1; j < N; ++j) u[i] += G[i][j] * x[j]; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j <= i; ++j) y[i] += G[i][j] * u[j]; xs.push_back(x); return y; }; unsigned n = g.size(), N = n * we; 
      if (w == 1 && r(2)) { unsigned k = 1 + r(3); for (unsigned q = 0; q < (cx ? 1 : k); ++q) rs.push_back(rhs(N)); if (cx) k = 1; std::vector<T> v(n * k); for (unsigned i = 0; i < n; ++i) for (unsigned q = 0; q < k; ++q) { if constexpr (std::is_same<T, double>::value) v[i * k + q] = rs[q][i]; else v[i] = CD(rs[0][2 * i], rs[0][2 * i + 1]); }
        I->ForwardSubstitutionDegenerate(v.data(), k); I->BackwardSubstitutionDegenerate(v.data(), k); for (unsigned q = 0; q < k; ++q) { VD z; for (unsigned i = 0; i < n; ++i) { if constexpr (std::is_same<T, double>::value) z.push_back(v[i * k + q]); else { z.push_back(v[i].real()); z.push_back(v[i].imag()); } } zs.push_back(z); } }
      else for (int q = 0; q < 2; ++q) { rs.push_back(rhs(N)); std::vector<T> v; VD z; if constexpr (std::is_same<T, double>::value) { v = rs.back(); I->SolvePrecond(v.data()); z = v; } else { for (unsigned i = 0; i < n; ++i) v.push_back(CD(rs.back()[2 * i], rs.back()[2 * i + 1])); I->SolvePrecond(v.data()); for (auto &c : v) { z.push_back(c.real()); z.push_back(c.imag()); } } zs.push_back(z); }
      J j("Factor"); j.kv("w", we).raw("d", mstr(d)).kv("ok", ok).raw("r", mstr(rs)).raw("x", mstr(xs)).raw("z", mstr(zs)).emit(); } } }
// complete fill and a dominant diagonal: the solution itself
static Mat dominant(Rng &r, const Gr &g, unsigned w, bool sym) { unsigned n = g.size(), N = n * w; Mat d = zeros(N); for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) if (i != j && (i / w == j / w || g[i / w][j / w])) { if (!sym) d[i][j] = r.range(-2, 2); else if (i < j) d[i][j] = d[j][i] = r.range(-2, 2); }
  for (unsigned i = 0; i < N; ++i) { double s = 1 + r(3); for (unsigned j = 0; j < N; ++j) if (i != j) s += std::fabs(d[i][j]); d[i][i] = sym || r(2) ? s : -s; } return d; }
static void complete(Rng &r) { unsigned n = 1 + r(6), w = 1 + r(n > 3 ? 3 : 6); CPreconditionerILU<double> I; for (int t = 0; t < 3; ++t) { if (t && r(3) == 0) { n = 1 + r(6); w = 1 + r(n > 3 ? 3 : 6); } Gr g(n, std::vector<char>(n, 0)); int den = r(5); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) g[i][j] = (int) r(4) < den; auto pt = rowsOf(r, g); CMatrixSparse<double> A; setup(A, w, pt); I.Initialize_ILUk(A, -1);
    { J j("Pattern"); j.kv("p", -1).arr2("want", pt).raw("got", prows(I)).emit(); } Mat d = dominant(r, g, w, false); put(A, d); I.CopyValue(A); I.Decompose(); VD x = ivec(r, n * w), b = mul(d, x), o = b; I.SolvePrecond(o.data()); J("Exact").raw("d", mstr(d)).arr("x", lv(x)).arr("b", lv(b)).arr("out", lv(o, 1e-6)).emit(); } }
// symmetric systems through the solver front end, iterated to a small residual
template<int nn, int w> static void frontN(Rng &r, unsigned n, const std::vector<VU> &pt, LinearSystemSolver_BlockSparseILU &S) {
  Gr g(n, std::vector<char>(n, 0)); for (unsigned i = 0; i < n; ++i) for (unsigned j : pt[i]) g[i][j] = 1;
  for (int t = 0; t < 3; ++t) { S.BeginMerge(); Mat d = zeros(n * w); std::fill(S.dof_bcflag.begin(), S.dof_bcflag.end(), 0); int m = r(3); if (m) for (int &f : S.dof_bcflag) f = r(4) == 0;
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i < j && g[i][j]) { unsigned nb[2] = {i, j}; double em[2][2][w][w]; for (int a = 0; a < w; ++a) for (int b = 0; b < w; ++b) { double v = r.range(-1, 1); em[0][1][a][b] = em[1][0][b][a] = v; } for (int q = 0; q < 2; ++q) for (int a = 0; a < w; ++a) for (int b = 0; b < w; ++b) em[q][q][a][b] = a == b ? w + r(2) : 0; S.Merge<2, 2, w, w>(nb, nb, em); for (int q = 0; q < 2; ++q) for (int s = 0; s < 2; ++s) for (int a = 0; a < w; ++a) for (int b = 0; b < w; ++b) d[nb[q] * w + a][nb[s] * w + b] += em[q][s][a][b]; }
    for (unsigned i = 0; i < n * w; ++i) { int v = 2 + r(2); S.AddValueToDiagonal(i / w, i % w, v); d[i][i] += v; }
    VD x = ivec(r, n * w); for (unsigned i = 0; i < n * w; ++i) if (S.dof_bcflag[i]) { x[i] = 0; for (unsigned j = 0; j < n * w; ++j) d[i][j] = d[j][i] = i == j; }
    VD b = mul(d, x); S.vec_r = b; for (unsigned i = 0; i < n * w; ++i) if (S.dof_bcflag[i]) S.vec_r[i] = r.range(-5, 5); if (r(2)) S.Solve_Cg(); else S.Solve_PcgIlu(); J("Exact").raw("d", mstr(d)).arr("x", lv(x)).arr("b", lv(b)).arr("out", lv(S.vec_x, 0.05)).emit(); } }
static void front(Rng &r) { unsigned n = 2 + r(5); Gr g(n, std::vector<char>(n, 0)); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) g[i][j] = g[j][i] = r(3) > 0; auto pt = rowsOf(r, g); VU ind{0}, ptr; for (auto &p : pt) { ptr.insert(ptr.end(), p.begin(), p.end()); ind.push_back(ptr.size()); } unsigned w = 1 + r(3); LinearSystemSolver_BlockSparseILU S; S.Initialize(n, w, ind, ptr); if (ptr.empty()) return;
  if (w == 1) frontN<2, 1>(r, n, pt, S); else if (w == 2) frontN<2, 2>(r, n, pt, S); else frontN<2, 3>(r, n, pt, S); }
// banded systems
template<class B> static std::string bdense(B &b, unsigned n, unsigned w) { Mat d = zeros(n * w); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (double *p = b.GetValuePointer(i, j)) for (unsigned a = 0; a < w; ++a) for (unsigned c = 0; c < w; ++c) d[i * w + a][j * w + c] = p[a * w + c]; return mstr(d); }
template<class B> static Mat bmat(B &b, unsigned n, unsigned w) { Mat d = zeros(n * w); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (double *p = b.GetValuePointer(i, j)) for (unsigned a = 0; a < w; ++a) for (unsigned c = 0; c < w; ++c) d[i * w + a][j * w + c] = p[a * w + c]; return d; }
template<unsigned w, int S, class B> static void element(Rng &r, B &B_, unsigned at, J &j) { static double em[S][S][w][w]; std::vector<long> le; for (auto &a : em) for (auto &b : a) for (auto &c : b) for (auto &d : c) { d = r.range(-2, 2); le.push_back((long) d); } B_.Merge(at, em); VU nb; for (unsigned i = 0; i < S; ++i) nb.push_back(at + i); j.arr("rows", nb).arr("cols", nb).arr("e", le); }
template<unsigned w, int band, class B> static void banded(Rng &r) { B m; unsigned n = 0; const unsigned lo = band == 1 ? 1 : 4; auto sh = [&](J &j) { j.raw("d", bdense(m, n, w)).emit(); };
  for (int t = 0; t < 3; ++t) { if (!t || r(2)) { if (t && r(2)) m.Clear(); n = lo + r(4); m.Initialize(n); J("Init").kv("n", n).kv("w", w).emit(); } m.setZero(); { J j("Zero"); sh(j); }
    for (int k = r(4); k >= 0 && n > (unsigned) band; --k) { J j("Merge"); element<w, band + 1>(r, m, r(n - band), j); sh(j); }
    if constexpr (band == 2) if (r(2)) { int i = r(n), k = std::min((int) n - 1, std::max(0, i + r.range(-2, 2))); VD e; for (unsigned q = 0; q < w * w; ++q) e.push_back(r.range(-2, 2)); m.MergeBlock(i, k, e.data()); J j("Merge"); j.arr("rows", VU{(unsigned) i}).arr("cols", VU{(unsigned) k}).arr("e", lv(e)); sh(j); }
    int bw = r(3); std::vector<int> fl(n * w, 0); if (bw) for (int &f : fl) f = r(4) == 0;
    Mat d = bmat(m, n, w); for (unsigned i = 0; i < n * w; ++i) { double s = 1 + r(3); for (unsigned j = 0; j < n * w; ++j) s += std::fabs(d[i][j]); double *p = m.GetValuePointer(i / w, i / w); if (r(2)) s = -s; p[(i % w) * w + i % w] += s - (r(2) ? 0 : 0); if (i == 0 || r(3) == 0) {} J j("Add"); j.kv("i", i).kv("j", i).kv("v", (long) s); sh(j); }
    d = bmat(m, n, w); for (unsigned i = 0; i < n * w; ++i) if (fl[i]) m.FixBC(i / w, i % w); if (bw) { J j("Fix"); j.arr("fl", fl); sh(j); d = bmat(m, n, w); }
    VD x = ivec(r, n * w), b = mul(d, x); m.Decompose(); for (int q = 0; q < 2; ++q) { VD o = b; m.Solve(o); J("Solve").arr("x", lv(x)).arr("b", lv(b)).arr("out", lv(o, 1e-6)).emit(); x = ivec(r, n * w); b = mul(d, x); } } }
static void pentaFront(Rng &r) { const unsigned w = 2; unsigned n = 4 + r(4); LinearSystemSolver_BlockPentaDiagonal<w> S; S.Initialize(n); J("Init").kv("n", n).kv("w", w).emit();
  for (int t = 0; t < 2; ++t) { S.BeginMerge(); auto sh = [&](J &j) { j.raw("d", bdense(S.dia, n, w)).emit(); }; { J j("Zero"); sh(j); } for (int k = 0; k < 3; ++k) { unsigned a = r(n - 2); VU nb{a, a + 1 + r(2)}; if (r(2)) std::swap(nb[0], nb[1]); double em[2][2][2][2]; std::vector<long> le; for (auto &p : em) for (auto &b : p) for (auto &c : b) for (auto &d : c) { d = r.range(-2, 2); le.push_back((long) d); } S.Merge<2, 2, 2, 2>(nb.data(), nb.data(), em); J j("Merge"); j.arr("rows", nb).arr("cols", nb).arr("e", le); sh(j); }
    Mat d = bmat(S.dia, n, w); for (unsigned i = 0; i < n * w; ++i) { double s = 1 + r(3); for (unsigned j = 0; j < n * w; ++j) s += std::fabs(d[i][j]); S.AddValueToDiagonal(i / w, i % w, s); J j("Add"); j.kv("i", i).kv("j", i).kv("v", (long) s); sh(j); }
    for (int &f : S.dof_bcflag) f = r(4) == 0; d = bmat(S.dia, n, w); VD x = ivec(r, n * w); for (unsigned i = 0; i < n * w; ++i) if (S.dof_bcflag[i]) { x[i] = 0; for (unsigned j = 0; j < n * w; ++j) d[i][j] = d[j][i] = i == j; } VD b = mul(d, x); S.vec_r = b; for (unsigned i = 0; i < n * w; ++i) if (S.dof_bcflag[i]) S.vec_r[i] = r.range(-5, 5); S.Solve(); J("Solve").arr("fl", S.dof_bcflag).arr("x", lv(x)).arr("b", lv(b)).arr("out", lv(S.vec_x, 1e-6)).emit(); } }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  for (auto &v : read_lines(input_path)) run_case([&] { Rng r(seed * 131 + cur_case); unsigned n = v[0]; Gr g(n, std::vector<char>(n, 0)); for (unsigned i = 0; i < n * n; ++i) g[i / n][i % n] = v[2 + i]; unsigned w = 1 + r(n > 3 && r(3) ? 3 : 5); if (r(5) == 0) incomplete<CD>(r, g, {(int) v[1]}, 1, 1); else incomplete<double>(r, g, {(int) v[1]}, w, 1); });
  int nr = thorough ? 1500 : 150;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 577 + cur_case); unsigned n = 2 + r(6), w = 1 + r(n > 4 ? 2 : 5); Gr g(n, std::vector<char>(n, 0)); bool sym = r(2); int den = 1 + r(3); for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) if (a != b && (int) r(4) < den) { g[a][b] = 1; if (sym) g[b][a] = 1; } std::vector<int> f; for (int k = 0; k < 3; ++k) f.push_back(r.range(-1, 3)); if (r(5) == 0) incomplete<CD>(r, g, f, 1, 2); else incomplete<double>(r, g, f, w, 2); });
  for (int i = 0; i < nr / 2; ++i) run_case([&] { Rng r(seed * 433 + cur_case); unsigned n = 3 + r(4), w = 4 + r(n > 4 ? 1 : 2); Gr g(n, std::vector<char>(n, 0)); bool sym = r(3) == 0; int den = 1 + r(2); for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) if (a != b && (int) r(4) < den) { g[a][b] = 1; if (sym) g[b][a] = 1; } incomplete<double>(r, g, {(int) r(3) / 2}, w, 1); }); // large blocks, dropped fill
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 353 + cur_case); complete(r); });
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 211 + cur_case); switch (r(8)) { case 0: banded<1, 1, BlockTriDiagonalMatrix<1>>(r); break; case 1: banded<2, 1, BlockTriDiagonalMatrix<2>>(r); break; case 2: banded<3, 1, BlockTriDiagonalMatrix<3>>(r); break; case 3: banded<4, 1, BlockTriDiagonalMatrix<4>>(r); break; case 4: banded<1, 2, BlockPentaDiagonalMatrix<1>>(r); break; case 5: banded<2, 2, BlockPentaDiagonalMatrix<2>>(r); break; case 6: banded<3, 2, BlockPentaDiagonalMatrix<3>>(r); break; default: pentaFront(r); } });
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 97 + cur_case); front(r); });
}
