// nearest points, distances, projections, polylines (C26)
#include "vh.h"
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_line.h"
#include "delfem2/geo_plane.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_quad.h"
#include "delfem2/geo_tet.h"
#include "delfem2/geo_aabb.h"
#include "delfem2/geo_polyline.h"
#include "delfem2/mshmisc.h"
using namespace vh;
using namespace delfem2;
typedef std::vector<long> IV;
typedef std::vector<IV> IM;
typedef CVec3d V3;
typedef CVec2d V2;
static const double TOL = 2.0e-7;
struct Frame { double s; double o[3]; };
static const Frame FR[] = {{1, {0, 0, 0}}, {0.125, {0, 0, 0}}, {0.37, {1.5, -2.25, 0.75}}, {3.7, {-10, 20, 5}}, {64, {100, -50, 7}}, {0.01, {0, 0, 0}}};
static V3 real3(const Frame &f, const IV &p) { return V3(f.o[0] + f.s * p[0], f.o[1] + f.s * p[1], f.o[2] + f.s * p[2]); }
static V2 real2(const Frame &f, const IV &p) { return V2(f.o[0] + f.s * p[0], f.o[1] + f.s * p[1]); }
static std::vector<double> unit(const Frame &f, const V3 &x) { return {(x.x - f.o[0]) / f.s, (x.y - f.o[1]) / f.s, (x.z - f.o[2]) / f.s}; }
static std::vector<double> unit(const Frame &f, const V2 &x) { return {(x.x - f.o[0]) / f.s, (x.y - f.o[1]) / f.s}; }
static std::vector<double> cat(std::vector<double> a, const std::vector<double> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// the first common denominator of the values (0: none)
static long den(const std::vector<double> &v, long top = 4096) {
  for (double x : v) if (!(std::fabs(x) < 1e6)) return 0;
  for (long d = 1; d <= top; ++d) {
    bool ok = true;
    for (double x : v) { const double w = x * d; if (std::fabs(w - std::rint(w)) > TOL) { ok = false; break; } }
    if (ok) return d;
  }
  return 0;
}
static IV nums(const std::vector<double> &v, long d) { IV r; for (double x : v) r.push_back(d == 0 || !(std::fabs(x) < 1e6) ? BAD : (long) std::rint(x * d)); return r; }
static double sq(double x) { return x * x; }
// x: the point, w: weights (may be empty), g: squared distance (negative: not given)
static void near(const char *fn, const IV &p, const IM &v, const std::vector<double> &x, const std::vector<double> &w = {}, double g = -1) {
  const long d = den(x), e = w.empty() ? 1 : den(w);
  J j("Near"); j.ks("f", fn).arr("p", p).arr2("v", v).arr("x", nums(x, d)).kv("d", d).arr("w", nums(w, e)).kv("e", e);
  j.kv("g", g < 0 ? -1l : RX(g, (double) d * d, 1e-3)).emit();
}
static void foot(const char *fn, const char *k, const IV &p, const IV &a, const IV &u, const std::vector<double> &x, const IM &v = {}, const std::vector<double> &w = {}) {
  const long d = den(x), e = w.empty() ? 1 : den(w);
  J("Foot").ks("f", fn).ks("k", k).arr("p", p).arr("a", a).arr("u", u).arr("x", nums(x, d)).kv("d", d).arr2("v", v).arr("w", nums(w, e)).kv("e", e).emit();
}
static IV sub(const IV &a, const IV &b) { IV r; for (size_t i = 0; i < a.size(); ++i) r.push_back(a[i] - b[i]); return r; }
static long dot(const IV &a, const IV &b) { long r = 0; for (size_t i = 0; i < a.size(); ++i) r += a[i] * b[i]; return r; }
static IV crs(const IV &a, const IV &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static IV flat(const IV &p) { return {p[0], p[1]}; }

static void edge_fns(const Frame &f, const IV &p, const IV &a, const IV &b) {
  const V3 P = real3(f, p), A = real3(f, a), B = real3(f, b);
  const IM v = {a, b};
  double r = -9;
  V3 q = Nearest_Origin_Edge(r, A - P, B - P);
  near("Nearest_Origin_Edge", p, v, unit(f, q + P), {1 - r, r});
  near("Nearest_Origin_Edge", p, v, unit(f, Nearest_Origin_Edge(A - P, B - P) + P));
  r = -9; q = Nearest_Edge_Point(r, P, A, B);
  near("Nearest_Edge_Point", p, v, unit(f, q), {1 - r, r});
  q = Nearest_Edge_Point(P, A, B);
  near("Nearest_Edge_Point", p, v, unit(f, q), {}, sq(Distance_Edge_Point(P, A, B) / f.s));
  double x[3]; Nearest_Edge3_Point3(x, P.p, A.p, B.p);
  near("Nearest_Edge3_Point3", p, v, unit(f, V3(x)));
  { // the plane
    const V2 P2 = real2(f, p), A2 = real2(f, a), B2 = real2(f, b);
    const IM v2 = {flat(a), flat(b)};
    near("Nearest_Edge_Point 2D", flat(p), v2, unit(f, Nearest_Edge_Point(P2, A2, B2)), {}, sq(Distance_Edge_Point(P2, A2, B2) / f.s));
  }
  if (a != b) {
    foot("Nearest_Line3_Point3", "line", p, a, sub(b, a), unit(f, Nearest_Line3_Point3<V3>(P, A, B - A)));
    double t = -9; q = Nearest_Line3_Point3(t, P, A, B - A);
    foot("Nearest_Line3_Point3 t", "line", p, a, sub(b, a), unit(f, q), v, {1 - t, t});
    foot("Nearest_Plane3_Point3", "plane", p, a, sub(b, a), unit(f, Nearest_Plane3_Point3(P, A, B - A)));
  }
}
static void tri_fns(const Frame &f, const IV &p, const IV &a, const IV &b, const IV &c) {
  const V3 P = real3(f, p), A = real3(f, a), B = real3(f, b), C = real3(f, c);
  const IM v = {a, b, c};
  const IV N = crs(sub(b, a), sub(c, a));
  const bool flatt = dot(N, N) == 0, twice = a == b || b == c || c == a;
  double x[3], r0 = -9, r1 = -9;
  Nearest_Triangle3_Point3(x, r0, r1, P.p, A.p, B.p, C.p);
  near("Nearest_Triangle3_Point3", p, v, unit(f, V3(x)), twice ? std::vector<double>{} : std::vector<double>{r0, r1, 1 - r0 - r1});
  r0 = r1 = -9;
  V3 q = Nearest_Origin3_Tri3(r0, r1, A - P, B - P, C - P);
  near("Nearest_Origin3_Tri3", p, v, unit(f, q + P), {r0, r1, 1 - r0 - r1});
  if (flatt) return;
  r0 = r1 = -9;
  q = Nearest_Origin3_PlaneTri3(r0, r1, A - P, B - P, C - P);
  foot("Nearest_Origin3_PlaneTri3", "plane", p, a, N, unit(f, q + P), v, {r0, r1, 1 - r0 - r1});
  foot("ProjectPointOnTriangle", "plane", p, a, N, unit(f, ProjectPointOnTriangle(P, A, B, C)));
  r0 = r1 = -9;
  const double g = DistanceFaceVertex(A, B, C, P, r0, r1);
  const std::vector<double> w = {r0, r1, 1 - r0 - r1};
  const long e = den(w);
  J("FaceVertex").arr("p", p).arr2("v", v).arr("w", nums(w, e)).kv("e", e).kv("g", RX(sq(g / f.s), (double) dot(N, N), 1e-3)).emit();
}
static void inside_fns(const IV &a, const IV &b, const IV &c, Rng &R) {
  const IV N = crs(sub(b, a), sub(c, a)); if (dot(N, N) == 0) return;
  const Frame &f = FR[R(2)];
  for (int k = 0; k < 6; ++k) {
    const int i = R.range(-2, 6), j = R.range(-2, 6);  // a + (i ab + j ac)/4
    IV p4; for (int m = 0; m < 3; ++m) p4.push_back(4 * a[m] + i * (b[m] - a[m]) + j * (c[m] - a[m]));
    const V3 P(f.s * p4[0] / 4, f.s * p4[1] / 4, f.s * p4[2] / 4);
    J("Inside").arr("x", p4).kv("d", 4).arr2("v", IM{a, b, c}).kv("r", isPointInsideTriangle(P, real3(f, a), real3(f, b), real3(f, c))).emit();
  }
}
static IV rp(Rng &R, int lo, int hi, int n = 3) { IV r; for (int i = 0; i < n; ++i) r.push_back(R.range(lo, hi)); return r; }
static void two_edges(const Frame &f, const IV &a, const IV &b, const IV &c, const IV &d, Rng &R) {
  const V3 A = real3(f, a), B = real3(f, b), C = real3(f, c), D = real3(f, d);
  const IV u = sub(b, a), v = sub(d, c), N = crs(u, v);
  if (dot(v, v)) {
    V3 p, q; Nearest_Edge3_Line3<V3>(p, q, A, B, C, D - C);
    const std::vector<double> xy = cat(unit(f, p), unit(f, q)); const long e = den(xy);
    const IV n = nums(xy, e);
    J("EdgeLine").arr2("v", IM{a, b}).arr("a", c).arr("u", v).arr("x", IV(n.begin(), n.begin() + 3)).arr("y", IV(n.begin() + 3, n.end())).kv("d", e).emit();
  }
  if (dot(u, u) == 0 || dot(v, v) == 0) return;
  { // lines
    double s = -9, ta, tb; V3 p, q;
    const int k = R(2);
    if (k) Nearest_Line3_Line3(s, p, q, A, B - A, C, D - C);
    else Nearest_Line3_Line3(s, p, q, ta, tb, A, B - A, C, D - C);
    const long S = RX(s / (f.s * f.s * f.s * f.s), 1, 1e-3);
    IV x, y;
    if (dot(N, N)) {
      const std::vector<double> X = unit(f, p / s), Y = unit(f, q / s);
      for (double t : X) x.push_back(RX(t, S, 1e-4)); for (double t : Y) y.push_back(RX(t, S, 1e-4));
    }
    J("Lines").arr("a", a).arr("u", u).arr("b", c).arr("v", v).kv("s", S).arr("x", x).arr("y", y)
      .arr("t", dot(N, N) && !k ? IV{RX(ta / (f.s * f.s * f.s * f.s), 1, 1e-3), RX(tb / (f.s * f.s * f.s * f.s), 1, 1e-3)} : IV{}).emit();
  }
  double ra = -9, rb = -9;
  const double g = Distance_Edge3_Edge3(A, B, C, D, ra, rb);
  const long e = den({ra, rb});
  const IV n = nums({ra, rb}, e);
  J("EdgeEdge").arr2("v", IM{a, b, c, d}).kv("ra", n[0]).kv("rb", n[1]).kv("d", e)
    .kv("g", RX(sq(g / f.s), (double) (dot(N, N) ? dot(N, N) : dot(u, u)), 1e-3)).emit();
  { // contact within h/6
    const int h = R.range(1, 15);
    const int o = R(5);
    const int i0 = R(9), i1 = i0 + 1, j0 = o == 0 ? i0 : o == 1 ? i1 : 20, j1 = o == 2 ? i0 : o == 3 ? i1 : 21;
    J("Touch").arr2("v", IM{a, b, c, d}).kv("h", h).arr("n", IV{i0, i1, j0, j1})
      .kv("r", IsContact_Edge3_Edge3_Proximity(i0, i1, j0, j1, A, B, C, D, f.s * h / 6.0)).emit();
  }
}
static void two_edges2(const Frame &f, const IM &v) {
  const double g = Distance_Edge2_Edge2(real2(f, v[0]), real2(f, v[1]), real2(f, v[2]), real2(f, v[3]));
  const double q = g < 0 ? 0 : sq(g / f.s); const long d = den({q});
  J("EdgeEdge2").arr2("v", v).kv("m", g < 0).kv("x", nums({q}, d)[0]).kv("d", d).emit();
}
static void cut_fns(const Frame &f, const IV &s, const IV &u, const IV &a, const IV &b, const IV &c) {
  const IV N = crs(sub(b, a), sub(c, a)); const long k = dot(N, u);
  if (dot(N, N) == 0 || k == 0) return;
  const V3 S = real3(f, s), A = real3(f, a), B = real3(f, b), C = real3(f, c); const V3 U(f.s * u[0], f.s * u[1], f.s * u[2]);
  V3 x; double r0, r1, r2;
  const bool h = Intersection_Plane3_Line3(x, r0, r1, r2, 1e-7, S, U, A, B, C);
  { const std::vector<double> X = unit(f, x), W = {r0, r1, r2}; const long d = den(X), e = den(W);
    J("Cut").arr("a", a).arr("n", N).arr("s", s).arr("u", u).arr("x", nums(X, d)).kv("d", d).arr2("v", IM{a, b, c}).arr("w", nums(W, e)).kv("e", e).kv("h", h).emit(); }
  { const std::vector<double> X = unit(f, Intersection_Plane3_Line3(A, V3(N[0], N[1], N[2]), S, U)); const long d = den(X);
    J("Cut").arr("a", a).arr("n", N).arr("s", s).arr("u", u).arr("x", nums(X, d)).kv("d", d).arr2("v", IM{}).arr("w", IV{}).kv("e", 1).kv("h", 0).emit(); }
}
static void quad_fns(const Frame &f, const IV &p, const IV &a, const IV &b, const IV &dd, const IV &u) {
  IV c; for (int m = 0; m < 3; ++m) c.push_back(b[m] + dd[m] - a[m]);
  const IV N = crs(sub(b, a), sub(dd, a)); if (dot(N, N) == 0) return;
  const V3 P = real3(f, p), A = real3(f, a), B = real3(f, b), C = real3(f, c), D = real3(f, dd);
  double s0 = -9, s1 = -9;
  V3 x = Nearst_Origin3_Quad3(s0, s1, A - P, B - P, C - P, D - P);
  near("Nearst_Origin3_Quad3", p, {a, b, c, dd}, unit(f, x + P));
  { const std::vector<double> X = unit(f, x + P), W = {1 - s0 - s1, s0, s1}; const long d = den(X), e = den(W);
    J("QuadAt").arr2("v", IM{a, b, dd}).arr("x", nums(X, d)).kv("d", d).arr("w", nums(W, e)).kv("e", e).emit(); }
  if (dot(N, u) == 0 || dot(N, sub(p, a)) == 0) return;
  V3 y(0, 0, 0); s0 = s1 = 0;
  const bool h = intersection_Point_Quad(y, s0, s1, P, V3(f.s * u[0], f.s * u[1], f.s * u[2]), A, B, C, D);
  const std::vector<double> X = unit(f, y), W = {1 - s0 - s1, s0, s1};
  const long d = den(X), e = den(W);
  J("QuadRay").arr2("v", IM{a, b, c, dd}).arr("s", p).arr("u", u).kv("h", h).arr("x", nums(X, d)).kv("d", d).arr("w", nums(W, e)).kv("e", e).emit();
}
static void tet_fns(const Frame &f, const IV &p, const IM &v) {
  const IV N = crs(sub(v[1], v[0]), sub(v[2], v[0])); const long V = dot(N, sub(v[3], v[0]));
  if (V == 0) return;
  V3 q[4]; for (int k = 0; k < 4; ++k) q[k] = real3(f, v[k]) - real3(f, p);
  double r0, r1, r2; barycentricCoord_Origin_Tet(r0, r1, r2, q[0], q[1], q[2], q[3]);
  const std::vector<double> W = {r0, r1, r2, 1 - r0 - r1 - r2}; const long e = den(W);
  J("Bary").arr("p", p).arr2("v", v).arr("w", nums(W, e)).kv("e", e).emit();
  // the solid angles of the four faces, seen from p, turn sign with the orientation
  static const int F[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
  for (auto &t : F) { const IV m = crs(sub(v[t[1]], v[t[0]]), sub(v[t[2]], v[t[0]])); if (dot(m, sub(p, v[t[0]])) == 0) return; }
  double sum = 0, sum1 = 0; bool range = true;
  for (auto &t : F) {
    const double s = SolidAngleTri<V3>(q[t[0]], q[t[1]], q[t[2]]), s1 = SolidAngleTri3D(q[t[0]].p, q[t[1]].p, q[t[2]].p);
    if (!(s >= 0 && s <= 4 * M_PI && s1 >= 0 && s1 <= 4 * M_PI)) range = false;
    sum += s > 2 * M_PI ? s - 4 * M_PI : s; sum1 += s1 > 2 * M_PI ? s1 - 4 * M_PI : s1;
  }
  J("Solid").arr("p", p).arr2("v", v).kv("r", range).kv("t", RX(sum / (4 * M_PI), 1, 1e-6)).kv("u", RX(sum1 / (4 * M_PI), 1, 1e-6)).emit();
}
static void aabb_fns(Rng &R) {
  const int n = R.range(3, 6), dm = R.range(2, 3), h = R(5); IM v; for (int i = 0; i < n; ++i) v.push_back(rp(R, R(2) ? -4 : -1, 4, dm));
  int r;
  const double d = h * 0.5;
  if (dm == 3) {
    V3 q[6]; for (int i = 0; i < n; ++i) q[i] = real3(FR[0], v[i]);
    r = n == 3 ? IsContact_Orgin_AabbOfPoint3(q[0], q[1], q[2], d) : n == 4 ? IsContact_Orgin_AabbOfPoint4(q[0], q[1], q[2], q[3], d)
      : n == 5 ? IsContact_Orgin_AabbOfPoint5(q[0], q[1], q[2], q[3], q[4], d) : IsContact_Orgin_AabbOfPoint6(q[0], q[1], q[2], q[3], q[4], q[5], d);
  } else {
    V2 q[6]; for (int i = 0; i < n; ++i) q[i] = real2(FR[0], v[i]);
    r = n == 3 ? IsContact_Orgin_AabbOfPoint3(q[0], q[1], q[2], d) : n == 4 ? IsContact_Orgin_AabbOfPoint4(q[0], q[1], q[2], q[3], d)
      : n == 5 ? IsContact_Orgin_AabbOfPoint5(q[0], q[1], q[2], q[3], q[4], d) : IsContact_Orgin_AabbOfPoint6(q[0], q[1], q[2], q[3], q[4], q[5], d);
  }
  J("Aabb").arr2("v", v).kv("h", h).kv("r", r).emit();
}
static void poly_fns(const Frame &f, const IM &P, Rng &R) {
  std::vector<V2> pl; for (auto &p : P) pl.push_back(real2(f, p));
  const size_t n = P.size();
  const bool exact = f.s == 1 || f.s == 0.125 || f.s == 64;
  {
    J("Polyline").arr2("v", P).emit();
    auto bb = AABB_Polyline(pl);
    J("PlBox").arr("b", IV{RX((bb[0] - f.o[0]) / f.s, 1, TOL), RX((bb[1] - f.o[1]) / f.s, 1, TOL), RX((bb[2] - f.o[0]) / f.s, 1, TOL), RX((bb[3] - f.o[1]) / f.s, 1, TOL)}).emit();
  }
  for (int k = 0; k < 4; ++k) {
    const IV q = rp(R, -1, 5, 2); const V2 Q = real2(f, q);
    J("PlPoint").arr("p", q).kv("i", FindNearestPointInPoints(pl, Q)).emit();
    if (n >= 2) {
      const double t = Nearest_Polyline(pl, Q); const long d = den({t});
      J("PlNear").arr("p", q).kv("t", nums({t}, d)[0]).kv("d", d).emit();
    }
  }
  for (int k = 0; k < 5; ++k) { // parameters in quarters, before, on and past both ends
    const int m = k == 0 ? 4 * ((int) n - 1) : k == 1 ? 4 * ((int) n - 1) + R.range(1, 6) : k == 2 ? -R(3) : R.range(0, 4 * (int) n - 4);
    const std::vector<double> x = unit(f, Sample_Polyline(pl, m * 0.25)); const long d = den(x);
    J e("PlSample"); e.kv("m", (long) m).arr("x", nums(x, d)).kv("d", d);
    IV tg; if (n >= 2) { const V2 t = Tangent_Polyline(pl, m * 0.25); tg = {RX(t.x / f.s, 1, TOL), RX(t.y / f.s, 1, TOL)}; }
    e.arr("t", tg).emit();
  }
  bool ax = true; for (size_t k = 0; k + 1 < n; ++k) if (P[k][0] != P[k + 1][0] && P[k][1] != P[k + 1][1]) ax = false;
  if (ax) {
    J("PlLen").kv("l", RX(Length_Polyline(pl) / f.s, 1, TOL)).emit();
    for (int k = 0; k < 3; ++k) {
      const IV q = rp(R, -1, 5, 2); const double a = ArcLengthPointInPolyline(pl, real2(f, q)) / f.s; const long d = den({a});
      J("PlArc").arr("p", q).kv("t", nums({a}, d)[0]).kv("d", d).emit();
    }
    if (exact) {
      const int h = R.range(1, 14); // spacing in quarters
      const auto s = Polyline_Resample_Polyline(pl, f.s * h * 0.25);
      IM o; for (auto &q : s) o.push_back(nums(unit(f, q), 4));
      bool ok = true; for (auto &q : s) if (den(unit(f, q), 4) == 0 ) ok = false;
      J("PlResample").kv("h", (long) h).kv("ok", ok).arr2("x", o).emit();
    }
  }
  if (n >= 3 && P.front() == P.back()) {
    Frame g = f; if (!exact) g.o[0] = g.o[1] = 0;
    std::vector<V2> pc; for (auto &p : P) pc.push_back(real2(g, p));
    J("PlArea").kv("a", RX(Area_Polyline2(pc) / (g.s * g.s), 2, 1e-5)).emit();
    for (int k = 0; k < 4; ++k) {
      const IV q = rp(R, -1, 5, 2);
      J("PlWind").arr("p", q).kv("t", RX(WindingNumber_Polyline2(pl, real2(f, q)) / (2 * M_PI), 1, 1e-6)).emit();
    }
  }
}
int main(int argc, char **argv) {
  init(argc, argv);
  const auto L = read_lines(input_path);
  size_t k = 0;
  for (; k < L.size(); k += 25) { // enumerated by the model: a point and two or three corners
    const size_t k0 = k, k1 = std::min(L.size(), k + 25);
    run_case([&]() {
      J("Start").emit();
      Rng R(seed * 977 + k0);
      for (size_t i = k0; i < k1; ++i) {
        IM q; for (size_t j = 0; j + 2 < L[i].size(); j += 3) q.push_back(IV(L[i].begin() + j, L[i].begin() + j + 3));
        const Frame &f = FR[R(6)];
        if (q.size() == 3) edge_fns(f, q[0], q[1], q[2]);
        else tri_fns(f, q[0], q[1], q[2], q[3]);
      }
    });
  }
  const int N = thorough ? 1500 : 150;
  for (int it = 0; it < N; ++it) {
    run_case([&]() {
      J("Start").emit();
      Rng R(seed * 7919 + it * 31 + 5);
      for (int r = 0; r < 6; ++r) {
        const Frame &f = FR[R(6)];
        IM v; for (int i = 0; i < 5; ++i) v.push_back(rp(R, 0, 3));
        const IV p = rp(R, -1, 4), u = rp(R, -2, 2);
        edge_fns(f, p, v[0], v[1]); tri_fns(f, p, v[0], v[1], v[2]);
        inside_fns(v[0], v[1], v[2], R);
        if (R(4) == 0) { const int m = R.range(-2, 2), o = R(3); for (int c = 0; c < 3; ++c) v[3][c] = v[2][c] + m * (v[1][c] - v[0][c]); v[3][o] += 0; } // parallel
        two_edges(f, v[0], v[1], v[2], v[3], R);
        IM e2; for (int i = 0; i < 4; ++i) e2.push_back(rp(R, 0, R(2) ? 3 : 5, 2));
        two_edges2(f, e2);
        cut_fns(f, p, u, v[0], v[1], v[2]);
        quad_fns(f, p, v[0], v[1], v[2], u);
        IM t4(v.begin() + (r & 1), v.begin() + (r & 1) + 4); tet_fns(f, p, t4);
        aabb_fns(R);
      }
    });
    run_case([&]() {
      J("Start").emit();
      Rng R(seed * 104729 + it * 17 + 3);
      for (int r = 0; r < 3; ++r) {
        const int n = R(8) == 0 ? 1 : R.range(2, 7), kind = R(3);
        IM P; P.push_back(rp(R, 0, 4, 2));
        while ((int) P.size() < n) {
          IV q = rp(R, 0, 4, 2);
          if (kind == 0) q[R(2)] = -1;
          for (int c = 0; c < 2; ++c) if (q[c] < 0) q[c] = P.back()[c];
          if (R(7) == 0) q = P.back();
          P.push_back(q);
        }
        if (kind == 2 && n >= 3) P.push_back(P[0]);
        if (kind == 0 && n >= 3 && R(2)) { P.push_back({P.back()[0], P[0][1]}); P.push_back(P[0]); }
        poly_fns(FR[R(6)], P, R);
      }
    });
    run_case([&]() { // far points: distances which single precision cannot tell apart
      J("Start").emit();
      Rng R(seed * 15485863 + it);
      IM P; const int n = R.range(2, 6), big = R.range(2000, 9000);
      P.push_back({big, (long) R(6)}); for (int i = 1; i < n; ++i) P.push_back({big, P.back()[1] + R.range(-1, 1)});
      std::vector<V2> pl; for (auto &p : P) pl.push_back(V2(p[0], p[1]));
      J("Polyline").arr2("v", P).emit();
      const IV q = {0, R(6)};
      J("PlPoint").arr("p", q).kv("i", FindNearestPointInPoints(pl, V2(q[0], q[1]))).emit();
      const double t = Nearest_Polyline(pl, V2(q[0], q[1])); const long d = den({t});
      J("PlNear").arr("p", q).kv("t", nums({t}, d)[0]).kv("d", d).emit();
      const double a = ArcLengthPointInPolyline(pl, V2(q[0], q[1])); const long da = den({a});
      J("PlArc").arr("p", q).kv("t", nums({a}, da)[0]).kv("d", da).emit();
    });
  }
  return 0;
}
