// C22: parallel loops under a controller that decides which of the running calls ends next.
#include "vh.h"
#include <mutex>
#include <condition_variable>
#include <thread>
#include <chrono>
#include <atomic>
#include <algorithm>
#include <map>
#include "delfem2/thread.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/mat4.h"
using namespace vh;
namespace dfm2 = delfem2;

// how many processors the machine seems to have; the standard allows "0: not known"
static unsigned int g_hc = 4;
unsigned int std::thread::hardware_concurrency() noexcept { return g_hc; }

struct Ex { long i; };
struct Ctl {
  std::mutex m; std::condition_variable cv;
  std::vector<std::string> log;
  std::map<long, bool> active; // index -> released
  std::vector<char> thr;
  std::map<std::thread::id, int> tid;
  bool free_run = false, stop = false;
  long id0 = 0;
  int nev = 0;
  void body(long i, bool x) {
    std::unique_lock<std::mutex> lk(m);
    auto it = tid.find(std::this_thread::get_id());
    if (it == tid.end()) it = tid.emplace(std::this_thread::get_id(), (int) tid.size()).first;
    log.push_back(J("Begin").kv("i", i).kv("t", it->second).s + "}\n"); nev++;
    const bool fresh = !active.count(i);
    if (fresh) active[i] = false;
    cv.notify_all();
    if (fresh) cv.wait(lk, [&] { return free_run || active[i]; });
    log.push_back(J("End").kv("i", i).kv("x", x ? 1 : 0).s + "}\n");
    if (fresh) active.erase(i);
    cv.notify_all();
    lk.unlock();
    if (x) throw Ex{i};
  }
  // lets calls end in the given order; want: how many should be running before each step (waits a moment for them)
  void control(const std::vector<long> &order, size_t n, size_t k, bool anythrow) {
    size_t done = 0; bool failed = false;
    for (long r : order) {
      std::unique_lock<std::mutex> lk(m);
      const size_t want = failed ? 1 : std::min(k, n - done);
      cv.wait_for(lk, std::chrono::milliseconds(400), [&] { return active.size() >= want || stop; });
      if (stop || active.empty()) break;
      std::vector<long> a; for (auto &p : active) if (!p.second) a.push_back(p.first);
      if (a.empty()) break;
      const long pick = a[std::min<size_t>((size_t) r, a.size() - 1)];
      active[pick] = true; done++;
      if (pick % 1000 < (long) thr.size() && thr[pick % 1000]) failed = true;
      cv.notify_all();
      cv.wait_for(lk, std::chrono::milliseconds(400), [&] { return !active.count(pick); });
    }
    std::unique_lock<std::mutex> lk(m); free_run = true; cv.notify_all();
  }
};

template<class T, class F> static void finish(Ctl &c, F loop, std::thread *ctl) {
  long x = -1;
  try { loop(); } catch (const Ex &e) { x = e.i; }
  { std::unique_lock<std::mutex> lk(c.m); c.log.push_back(J("Return").kv("x", x).s + "}\n"); c.stop = true; c.cv.notify_all(); }
  if (ctl) ctl->join();
  std::unique_lock<std::mutex> lk(c.m);
  std::string all; for (auto &s : c.log) all += s;
  J j("x"); j.s = all.substr(0, all.size() - 2); j.emit();
}

template<class T> static void controlled1(T n, unsigned int k, std::vector<char> thr, std::vector<long> order) {
  J("Loop").kv("d", 1).kv("n1", (long) n).kv("n2", 0).kv("k", (long) k).emit();
  Ctl c; c.thr = thr;
  std::thread ct([&] { c.control(order, (size_t) std::max<long>(0, (long) n), k == 0 ? g_hc : k, false); });
  finish<T>(c, [&] { dfm2::parallel_for(n, [&](T i) { c.body((long) i, (size_t) i < c.thr.size() && c.thr[i]); }, k); }, &ct);
}
template<class T> static void controlled2(T n1, T n2, unsigned int k, std::vector<char> thr, std::vector<long> order) {
  J("Loop").kv("d", 2).kv("n1", (long) n1).kv("n2", (long) n2).kv("k", (long) k).emit();
  Ctl c; c.thr = thr;
  std::thread ct([&] { c.control(order, (size_t) std::max<long>(0, (long) n1) * std::max<long>(0, (long) n2), std::min<size_t>(k == 0 ? g_hc : k, (size_t) std::max<long>(0, (long) n2)), false); });
  finish<T>(c, [&] { dfm2::parallel_for(n1, n2, [&](T i, T j) { c.body((long) i + 1000 * (long) j, (size_t) i < c.thr.size() && c.thr[i]); }, k); }, &ct);
}
// long loops, nobody interferes
template<class T> static void bulk(T n, unsigned int k, int spin) {
  const long m = std::max<long>(0, (long) n);
  std::vector<std::atomic<int>> cnt(m + 1); for (auto &a : cnt) a = 0;
  std::atomic<long> calls{0}, ended{0}, cur{0}, most{0}, bad{0};
  dfm2::parallel_for(n, [&](T i) {
    const long c = ++cur; long o = most; while (c > o && !most.compare_exchange_weak(o, c)) {}
    calls++;
    const long ii = (long) i;
    if (ii < 0 || ii >= m) bad++; else cnt[ii]++;
    for (volatile int s = 0; s < spin * (int) (ii % 7); ++s) {}
    if (spin > 1000 && ii % 5 == 0) std::this_thread::sleep_for(std::chrono::microseconds(200));
    cur--; ended++;
  }, k);
  const long atret = ended, c0 = calls;
  if (spin > 1000) std::this_thread::sleep_for(std::chrono::milliseconds(5));
  long lo = 1000000, hi = 0; for (long i = 0; i < m; ++i) { lo = std::min<long>(lo, cnt[i]); hi = std::max<long>(hi, cnt[i]); }
  J("Counts").kv("n", m).kv("k", (long) k).kv("calls", (long) calls).kv("lo", m ? lo : 1).kv("hi", m ? hi : 1).kv("bad", (long) bad)
      .kv("atret", atret).kv("late", (long) calls - c0).kv("most", (long) most).emit();
}
template<class T> static void bulk2(T n1, T n2, unsigned int k, int spin) {
  const long m1 = std::max<long>(0, (long) n1), m2 = std::max<long>(0, (long) n2), m = m1 * m2;
  std::vector<std::atomic<int>> cnt(m + 1); for (auto &a : cnt) a = 0;
  std::atomic<long> calls{0}, ended{0}, cur{0}, most{0}, bad{0};
  dfm2::parallel_for(n1, n2, [&](T i, T j) {
    const long c = ++cur; long o = most; while (c > o && !most.compare_exchange_weak(o, c)) {}
    calls++;
    if ((long) i < 0 || (long) i >= m1 || (long) j < 0 || (long) j >= m2) bad++; else cnt[(long) j * m1 + (long) i]++;
    for (volatile int s = 0; s < spin * (int) ((long) i % 7); ++s) {}
    cur--; ended++;
  }, k);
  const long atret = ended, c0 = calls;
  long lo = 1000000, hi = 0; for (long i = 0; i < m; ++i) { lo = std::min<long>(lo, cnt[i]); hi = std::max<long>(hi, cnt[i]); }
  J("Counts").kv("n", m).kv("k", (long) k).kv("calls", (long) calls).kv("lo", m ? lo : 1).kv("hi", m ? hi : 1).kv("bad", (long) bad)
      .kv("atret", atret).kv("late", (long) calls - c0).kv("most", (long) most).emit();
}
static void nested(int n, int k1, int m, int k2) {
  std::vector<std::atomic<int>> cnt(n * m + 1); for (auto &a : cnt) a = 0;
  std::atomic<long> calls{0}, ended{0}, bad{0};
  dfm2::parallel_for(n, [&](int i) {
    dfm2::parallel_for(m, [&](int j) { calls++; if (i < 0 || i >= n || j < 0 || j >= m) bad++; else cnt[i * m + j]++; ended++; }, (unsigned int) k2);
  }, (unsigned int) k1);
  long lo = 1000000, hi = 0; for (int i = 0; i < n * m; ++i) { lo = std::min<long>(lo, cnt[i]); hi = std::max<long>(hi, cnt[i]); }
  J("Counts").kv("n", n * m).kv("k", 0).kv("calls", (long) calls).kv("lo", n * m ? lo : 1).kv("hi", n * m ? hi : 1).kv("bad", (long) bad)
      .kv("atret", (long) ended).kv("late", 0).kv("most", 0).emit();
}
// picture of a board of squares, each cell (cx,cy) of a w x h raster is either covered by two triangles or empty; exp is what a pixel must show
static void image(Rng &R, unsigned int w, unsigned int h, bool dirty) {
  std::vector<double> xyz; std::vector<unsigned int> tri; std::vector<long> exp(w * h, -1);
  // the raster covers [-1,1]^2 under the identity; pixel (iw,ih) is centred at -1+2(iw+.5)/w
  for (unsigned int ih = 0; ih < h; ++ih) for (unsigned int iw = 0; iw < w; ++iw) {
    if (R(3) == 0) continue;
    const double x0 = -1 + 2. * iw / w, x1 = -1 + 2. * (iw + 1) / w, y0 = -1 + 2. * ih / h, y1 = -1 + 2. * (ih + 1) / h;
    const double z = (R(9) - 4) * 0.1;
    const unsigned int b = (unsigned int) (xyz.size() / 3);
    // one triangle that covers the centre and stays in the cell
    const double P[3][3] = {{x0, y0, z}, {x1, y0, z}, {(x0 + x1) / 2, y1, z}};
    for (auto &p : P) for (double q : p) xyz.push_back(q);
    exp[ih * w + iw] = (long) (tri.size() / 3);
    tri.push_back(b); tri.push_back(b + 1); tri.push_back(b + 2);
  }
  if (tri.size() < 6) return;
  double mvp[16]; for (int i = 0; i < 16; ++i) mvp[i] = (i % 5 == 0) ? 1. : 0.;
  std::vector<long> out[2];
  auto go = [&](auto bv) {
    using BV = decltype(bv);
    std::vector<dfm2::CNodeBVH2> nodes; std::vector<BV> vols;
    dfm2::BuildBVH_MeshTri3D_Morton(nodes, vols, xyz, tri);
    for (int p = 0; p < 2; ++p) {
      std::vector<dfm2::PointOnSurfaceMesh<double>> pes;
      if (dirty) pes.resize(w * h + R(3), dfm2::PointOnSurfaceMesh<double>(777, 0.25, 0.25));
      dfm2::Intersection_ImageRay_TriMesh3(pes, h, w, mvp, nodes, vols, xyz, tri, p == 1);
      for (auto &q : pes) out[p].push_back(IX(q.itri));
    }
  };
  go(dfm2::CBV3d_Sphere());
  J("Image").kv("w", (long) w).kv("h", (long) h).arr("exp", exp).arr("ser", out[0]).arr("par", out[1]).emit();
}

int main(int argc, char **argv) {
  init(argc, argv);
  const auto beh = read_lines(input_path);
  auto split = [](const std::vector<long> &b, long &n, long &k, std::vector<char> &thr, std::vector<long> &ord) {
    n = b[0]; k = b[1]; thr.assign(b.begin() + 2, b.begin() + 2 + n); ord.assign(b.begin() + 2 + n, b.end());
  };
  for (size_t q = 0; q < beh.size(); ++q) run_case([&] {
    long n, k; std::vector<char> thr; std::vector<long> ord; split(beh[q], n, k, thr, ord);
    switch (q % 5) {
      case 0: controlled1<unsigned int>((unsigned int) n, (unsigned int) k, thr, ord); break;
      case 1: controlled1<int>((int) n, (unsigned int) k, thr, ord); break;
      case 2: controlled1<size_t>((size_t) n, (unsigned int) k, thr, ord); break;
      case 3: g_hc = (unsigned int) k; controlled1<long>(n, 0, thr, ord); break;
      case 4: controlled1<short>((short) n, (unsigned int) k, thr, ord); break;
    }
  });
  for (int d = 1; d <= 2; ++d) for (int n1 = -1; n1 <= 4; ++n1) for (int n2 = (d == 2 ? -1 : 0); n2 <= (d == 2 ? 4 : 0); ++n2) for (int k = 0; k <= 4; ++k) for (int s = 0; s < (thorough ? 6 : 2); ++s)
    run_case([=] {
      Rng R(seed * 7919 + (((d * 10 + n1 + 1) * 10 + n2 + 1) * 10 + k) * 10 + s);
      g_hc = (unsigned int) R(4); // 0: not known
      std::vector<long> ord; for (int i = 0; i < 30; ++i) ord.push_back(R(4));
      std::vector<char> thr; if (s % 2) for (int i = 0; i < n1; ++i) thr.push_back(R(3) == 0);
      const int ty = R(3);
      if (d == 1) { if (ty == 0 || n1 < 0) controlled1<int>(n1, (unsigned) k, thr, ord); else controlled1<unsigned int>((unsigned) n1, (unsigned) k, thr, ord); }
      else { if (ty == 0 || n1 < 0 || n2 < 0) controlled2<int>(n1, n2, (unsigned) k, thr, ord); else controlled2<size_t>((size_t) n1, (size_t) n2, (unsigned) k, thr, ord); }
    });
  for (int hc = 0; hc <= 9; ++hc) for (int k = 0; k <= 3; ++k) run_case([=] { g_hc = (unsigned) hc; bulk<int>(17, (unsigned) k, 1); bulk2<unsigned int>(5u, 7u, (unsigned) k, 1); });
  // narrow index types at the end of their range
  for (int k : {0, 1, 2, 3, 8, 16, 40}) run_case([=] {
    g_hc = 8;
    for (int n : {0, 1, 100, 127}) bulk<signed char>((signed char) n, (unsigned) k, 1);
    for (int n : {0, 1, 200, 250, 254, 255}) bulk<unsigned char>((unsigned char) n, (unsigned) k, 1);
    for (int n : {-128, -1}) bulk<signed char>((signed char) n, (unsigned) k, 1);
    for (int n : {32767, 32760}) bulk<short>((short) n, (unsigned) k, 0);
    bulk<unsigned short>((unsigned short) 65535, (unsigned) k, 0);
    bulk2<unsigned char>((unsigned char) 3, (unsigned char) 255, (unsigned) k, 1);
    bulk2<signed char>((signed char) 127, (signed char) 127, (unsigned) k, 0);
  });
  const int NB = thorough ? 400 : 60;
  for (int q = 0; q < NB; ++q) run_case([=] {
    Rng R(seed * 31 + q);
    g_hc = (unsigned) R.range(1, 12);
    const unsigned k = (unsigned) R(R(3) ? 9 : 65);
    const int spin = R(3) == 0 ? 2000 : R(40);
    const int n = R(4) == 0 ? R(12) : R(spin > 1000 ? 60 : 20000);
    switch (R(4)) {
      case 0: bulk<unsigned int>((unsigned) n, k, spin); break;
      case 1: bulk<long>(n, k, spin); break;
      case 2: bulk<size_t>((size_t) n, k, spin); break;
      default: { const int a = R(40), b = R(60); bulk2<int>(a, b, k, spin > 1000 ? 1 : spin); bulk2<size_t>((size_t) a, (size_t) b, k, spin > 1000 ? 1 : spin); }
    }
    nested(R(5), R(4), R(6), R(4));
  });
  for (int q = 0; q < (thorough ? 200 : 40); ++q) run_case([=] {
    Rng R(seed * 131 + q); g_hc = (unsigned) R.range(1, 6);
    image(R, (unsigned) R.range(1, 9), (unsigned) R.range(1, 9), q % 2 == 1);
  });
  return 0;
}
