#pragma once
#include "vh.h"
typedef std::array<int, 2> P2;
typedef std::vector<P2> Poly;
inline long ori(P2 a, P2 b, P2 c) { return (long) (b[0] - a[0]) * (c[1] - a[1]) - (long) (b[1] - a[1]) * (c[0] - a[0]); }
inline bool onseg(P2 a, P2 b, P2 p) {
  return ori(a, b, p) == 0 && std::min(a[0], b[0]) <= p[0] && p[0] <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= p[1] && p[1] <= std::max(a[1], b[1]); }
inline int sgn(long x) { return (x > 0) - (x < 0); }
inline bool segmeet(P2 a, P2 b, P2 c, P2 d) {
  if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return true;
  return sgn(ori(a, b, c)) * sgn(ori(a, b, d)) < 0 && sgn(ori(c, d, a)) * sgn(ori(c, d, b)) < 0; }
inline bool simplepoly(const Poly &p) {
  int n = p.size(); if (n < 3) return false;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
    if (p[i] == p[j]) return false;
    if (j == i + 1) { if (onseg(p[i], p[j], p[(j + 1) % n]) || onseg(p[j], p[(j + 1) % n], p[i])) return false; }
    else if (i == 0 && j == n - 1) { if (onseg(p[j], p[0], p[1]) || onseg(p[0], p[1], p[j])) return false; }
    else if (segmeet(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])) return false; }
  return true; }
inline bool polymeet(const Poly &p, const Poly &q) {
  for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < q.size(); ++j)
    if (segmeet(p[i], p[(i + 1) % p.size()], q[j], q[(j + 1) % q.size()])) return true;
  return false; }
inline bool inpoly(const Poly &p, P2 q) {
  bool in = false; int n = p.size();
  for (int i = 0; i < n; ++i) { P2 a = p[i], b = p[(i + 1) % n];
    if ((a[1] > q[1]) != (b[1] > q[1])) { if (b[1] > a[1] ? ori(a, b, q) > 0 : ori(a, b, q) < 0) in = !in; } }
  return in; }
inline long area2(const Poly &p) { long s = 0; for (size_t i = 0; i < p.size(); ++i) { P2 a = p[i], b = p[(i + 1) % p.size()]; s += (long) a[0] * b[1] - (long) b[0] * a[1]; } return s; }
// random simple polygon: random points, made simple by 2-opt moves
inline bool randpoly(vh::Rng &g, int n, int x0, int x1, int y0, int y1, Poly &p) {
  p.clear(); for (int i = 0; i < n; ++i) p.push_back({g.range(x0, x1), g.range(y0, y1)});
  for (int it = 0; it < 40; ++it) {
    if (simplepoly(p)) return true;
    bool ch = false;
    for (int i = 0; i < n && !ch; ++i) for (int j = i + 2; j < n && !ch; ++j) { if (i == 0 && j == n - 1) continue;
      if (segmeet(p[i], p[i + 1], p[j], p[(j + 1) % n])) { std::reverse(p.begin() + i + 1, p.begin() + j + 1); ch = true; } }
    if (!ch) return false; }
  return simplepoly(p); }
