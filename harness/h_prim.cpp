#include "vh.h"
#include "delfem2/msh_primitive.h"
#include "delfem2/msh_geodesic_polyhedron.h"
using namespace delfem2; using namespace vh;
static const char *KN[] = {"", "sphere", "cylo", "cylc", "capsule", "disk", "torus", "cube", "cubevox", "grid2", "hex", "ico", "geod"};
static double TOL = 1e-5;
static const double PI = 3.14159265358979323846;
static long near(double v) { double r = std::rint(v); return std::fabs(v - r) < std::max(TOL, 1e-3 * 0) * 50 ? (long) r : BAD; }
typedef std::array<double, 3> V3;
// label of a vertex on ring k: angle about an axis, counterclockwise, in steps of 2pi/n from a reference
static long slot(double a, double ref, int n) { long s = near((a - ref) * n / (2 * PI)); if (s == BAD) return BAD; return ((s % n) + n) % n; }
template<class T> static void surf(int k, const std::vector<int> &p, const std::vector<T> &X, const std::vector<unsigned> &E, int nn, double r, double l, const double *lo, const double *hi, int nd = 3) {
  std::vector<V3> P; for (size_t i = 0; i + nd <= X.size(); i += nd) P.push_back({(double) X[i], (double) X[i + 1], nd == 3 ? (double) X[i + 2] : 0});
  std::vector<std::vector<long>> L; double ref = NAN;
  auto eq = [&](double a, double b) { return std::fabs(a - b) < TOL * 20 * (1 + r + l); };
  for (auto &q : P) {
    double x = q[0], y = q[1], z = q[2], h = std::hypot(x, z), a = std::atan2(x, z); long ring = BAD, s = BAD; bool ok = true; bool pole = eq(h, 0);
    if (k == 1) { ring = near((PI - std::acos(std::max(-1., std::min(1., y / r)))) * p[0] / PI); if (eq(y, -r)) ring = 0; if (eq(y, r)) ring = p[0]; ok = eq(std::sqrt(x * x + y * y + z * z), r); if (ring > 0 && ring < p[0] && pole) ok = false; }
    else if (k == 2) { ring = near((y + l / 2) * p[1] / l); ok = eq(h, r); pole = false; }
    else if (k == 3) { ring = near((y + l / 2) * p[1] / l); if (ring != BAD) ring = pole ? (ring == 0 ? 0 : ring == p[1] ? p[1] + 2 : BAD) : ring + 1; ok = pole || eq(h, r); }
    else if (k == 4) { int nr = p[1], nl = p[2];
      if (y < -l / 2 - TOL) { double c = (-l / 2 - y) / r; ring = near(nr - std::asin(std::min(1., c)) * 2 * nr / PI); if (eq(y, -l / 2 - r)) ring = 0; ok = eq(std::hypot(h, y + l / 2), r); }
      else if (y > l / 2 + TOL) { double c = (y - l / 2) / r; ring = near(nr + nl + std::asin(std::min(1., c)) * 2 * nr / PI); if (eq(y, l / 2 + r)) ring = 2 * nr + nl; ok = eq(std::hypot(h, y - l / 2), r); }
      else { ring = near(nr + (y + l / 2) * nl / l); ok = eq(h, r); } }
    else if (k == 5) { ring = near(h * p[0] / r); ok = eq(y, 0); }
    else if (k == 6) { double R = std::hypot(x, y); a = std::atan2(R - r, z) ; double b = std::atan2(x, y); // tube angle about the ring direction
      ok = eq(std::hypot(R - r, z), l); long i = slot(b, 0, p[0]), j = slot(std::atan2(z, R - r), 0, p[1]); L.push_back({ok ? i : BAD, j}); continue; }
    else if (k == 9) { L.push_back({EX(x), EX(y)}); continue; }
    else if (k == 7) { L.push_back({near((x + .5) * p[0]), near((y + .5) * p[0]), near((z + .5) * p[0])}); continue; }
    else if (k == 8) { L.push_back({near((x - lo[0]) / (hi[0] - lo[0])), near((y - lo[1]) / (hi[1] - lo[1])), near((z - lo[2]) / (hi[2] - lo[2]))}); continue; }
    else if (k == 10) { L.push_back({near(x / r), near(y / r), near(z / r)}); continue; }
    if (pole) s = 0; else { if (std::isnan(ref)) ref = a; s = slot(a, ref, k == 1 ? p[1] : k == 5 ? p[1] : p[0]); }
    L.push_back({ok ? ring : BAD, s}); }
  std::vector<std::vector<long>> e; for (size_t i = 0; i + nn <= E.size(); i += nn) { e.emplace_back(); for (int j = 0; j < nn; ++j) e.back().push_back(IX(E[i + j])); }
  if (E.size() % nn || X.size() % nd) e.push_back(std::vector<long>(nn, BAD));
  J(k == 10 ? "Hex" : "Surf").ks("k", KN[k]).arr("p", p).arr2("lab", L).arr2("el", e).emit(); }
template<class T> static void go(int k, const std::vector<int> &p, Rng &r) {
  static const double S[] = {1, 0.5, 2, 3.75, 0.8125}; T a = S[r(5)], b = S[r(5)]; std::vector<T> X; std::vector<unsigned> E; if (r(2)) { X.assign(7, 3); E.assign(4, 2u); }
  double lo[3], hi[3]; T tl[3], th[3]; for (int i = 0; i < 3; ++i) { tl[i] = lo[i] = r(5) - 3; th[i] = hi[i] = lo[i] + 1 + r(4); }
  TOL = sizeof(T) == 4 ? 2e-5 : 1e-6;
  if (k == 1) MeshTri3D_Sphere(X, E, a, (unsigned) p[0], (unsigned) p[1]);
  if (k == 2) MeshTri3D_CylinderOpen(X, E, a, b, (unsigned) p[0], (unsigned) p[1]);
  if (k == 3) MeshTri3D_CylinderClosed(X, E, a, b, (unsigned) p[0], (unsigned) p[1]);
  if (k == 4) MeshTri3_Capsule(X, E, a, b, (unsigned) p[0], (unsigned) p[1], (unsigned) p[2]);
  if (k == 6) { if (b >= a) b = a / 4; MeshTri3_Torus(X, E, a, b, (unsigned) p[0], (unsigned) p[1]); }
  if (k == 7) MeshTri3D_Cube(X, E, (unsigned) p[0]);
  if (k == 8) MeshQuad3_CubeVox(X, E, tl, th);
  if (k == 10) MeshHex3_Grid(X, E, (unsigned) p[0], (unsigned) p[1], (unsigned) p[2], a);
  surf(k, p, X, E, k == 8 ? 4 : k == 10 ? 8 : 3, a, b, lo, hi); }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  for (auto &v : read_lines(input_path)) run_case([&] {
    int k = v[0]; std::vector<int> p(v.begin() + 1, v.end());
    for (int rep = 0; rep < 2; ++rep) { Rng r(seed * 131 + cur_case * 2 + rep);
      if (k == 5 || k == 9 || k >= 11) {
        std::vector<double> X; std::vector<unsigned> E; if (r(2)) { X.assign(7, 3); E.assign(4, 2u); } TOL = 1e-6; double a = rep + 0.75;
        if (k == 5) { MeshTri3D_Disk(X, E, a, p[0], p[1]); surf(k, p, X, E, 3, a, 1, nullptr, nullptr); }
        if (k == 9) { MeshQuad2D_Grid(X, E, p[0], p[1]); surf(k, p, X, E, 4, 1, 1, nullptr, nullptr, 2); }
        if (k >= 11) { if (k == 11) MeshTri3D_Icosahedron(X, E); else MeshTri3D_GeodesicPolyhedron(X, E);
          std::vector<std::array<long, 3>> L, T; for (size_t i = 0; i + 2 < X.size(); i += 3) L.push_back({std::lrint(X[i] * 200), std::lrint(X[i + 1] * 200), std::lrint(X[i + 2] * 200)});
          for (size_t i = 0; i + 2 < E.size(); i += 3) T.push_back({IX(E[i]), IX(E[i + 1]), IX(E[i + 2])}); J("Ball").ks("k", KN[k]).arr2("lab", L).arr2("el", T).emit(); } }
      else if (rep) go<float>(k, p, r); else go<double>(k, p, r); } });
}
