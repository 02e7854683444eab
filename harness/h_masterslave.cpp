// C17: degrees of freedom tied to masters
#include "vh.h"
#include <set>
#include <algorithm>
#include "delfem2/ls_masterslave.h"
using namespace delfem2; using namespace vh;
typedef std::vector<unsigned> VU;
static std::string dense(const CMatrixSparse<double> &A) { unsigned n = A.nrowblk_, w = A.nrowdim_, N = n * w; std::vector<std::vector<double>> d(N, std::vector<double>(N, 0)); for (unsigned i = 0; i < n; ++i) for (unsigned a = 0; a < w; ++a) for (unsigned b = 0; b < w; ++b) { d[i * w + a][i * w + b] += A.val_dia_[(i * w + a) * w + b]; for (unsigned k = A.col_ind_[i]; k < A.col_ind_[i + 1]; ++k) d[i * w + a][A.row_ptr_[k] * w + b] += A.val_crs_[(k * w + a) * w + b]; }
  std::string s = "["; for (unsigned i = 0; i < N; ++i) { std::vector<long> v; for (double x : d[i]) v.push_back(EX(x)); s += (i ? "," : "") + J::str(v); } return s + "]"; }
static void one(Rng &r, const std::vector<std::vector<char>> &g, unsigned w, const VU &ms, VU &ind, VU &arr, CMatrixSparse<double> &A) {
  unsigned n = g.size(); std::vector<VU> ps(n); VU pi{0}, pp; for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) if (i != j && g[i][j]) ps[i].push_back(j); for (size_t k = ps[i].size(); k-- > 1;) std::swap(ps[i][k], ps[i][r(k + 1)]); pp.insert(pp.end(), ps[i].begin(), ps[i].end()); pi.push_back(pp.size()); }
  JArray_AddMasterSlavePattern(ind, arr, ms.data(), w, pi.data(), pi.size(), pp.data()); std::vector<VU> got; for (unsigned i = 0; i < n; ++i) got.emplace_back(arr.begin() + ind[i], arr.begin() + ind[i + 1]);
  { std::vector<long> m; for (unsigned x : ms) m.push_back(IX(x)); J("Pattern").kv("w", w).arr("ms", m).arr2("psup", ps).arr2("got", got).kv("n", ind.size()).kv("k", arr.size() == ind.back()).emit(); }
  A.Clear(); A.Initialize(n, w, true); A.SetPattern(ind.data(), ind.size(), arr.data(), arr.size());
  for (int t = 0; t < 2; ++t) { A.setZero(); int den = 1 + r(4); auto val = [&] { return (int) r(4) < den ? (double) r.range(-3, 3) : 0.; };
    for (auto &x : A.val_dia_) x = val(); for (unsigned i = 0; i < n; ++i) for (unsigned k = ind[i]; k < ind[i + 1]; ++k) { bool own = g[i][arr[k]] || r(4) == 0; for (unsigned a = 0; a < w * w; ++a) A.val_crs_[k * w * w + a] = own ? val() : 0.; } // a user may fill any entry of the pattern
    std::string d = dense(A); SetMasterSlave(A, ms.data()); J("Tie").raw("d", d).raw("d1", dense(A)).emit();
    std::vector<double> b; for (unsigned i = 0; i < n * w; ++i) b.push_back(r.range(-4, 4)); std::vector<double> b1 = b; setRHS_MasterSlave(b1.data(), b1.size(), ms.data()); J("Rhs").arr("b", std::vector<long>(b.begin(), b.end())).arr("b1", [&] { std::vector<long> v; for (double x : b1) v.push_back(EX(x)); return v; }()).emit(); } }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  for (auto &v : read_lines(input_path)) run_case([&] { Rng r(seed * 131 + cur_case); unsigned n = v[0], w = v[1]; std::vector<std::vector<char>> g(n, std::vector<char>(n, 0)); for (unsigned i = 0; i < n * n; ++i) g[i / n][i % n] = v[2 + i]; VU ms; for (unsigned i = 0; i < n * w; ++i) ms.push_back(v[2 + n * n + i] < 0 ? UINT_MAX : (unsigned) v[2 + n * n + i]); VU a, b; CMatrixSparse<double> A; one(r, g, w, ms, a, b, A); });
  int nr = thorough ? 4000 : 400;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 577 + cur_case); VU a, b; if (r(2)) { a.assign(9, 3); b.assign(7, 5); } CMatrixSparse<double> A; for (int t = 0; t < 3; ++t) { unsigned n = 2 + r(5), w = 1 + r(3); std::vector<std::vector<char>> g(n, std::vector<char>(n, 0)); bool sym = r(3); int den = 1 + r(3); for (unsigned p = 0; p < n; ++p) for (unsigned q = 0; q < n; ++q) if (p != q && (int) r(5) < den) { g[p][q] = 1; if (sym) g[q][p] = 1; }
    VU ms(n * w, UINT_MAX); for (unsigned k = 0; k < 1 + r(n * w); ++k) { unsigned d = r(n * w), m = r(n) * w + d % w; if (m == d || ms[m] != UINT_MAX || std::count(ms.begin(), ms.end(), d)) continue; ms[d] = m; } one(r, g, w, ms, a, b, A); } });
}
