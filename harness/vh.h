// Common recording helpers for the conformance harnesses (no part of delfem2).
// Every case runs in a forked child; each event is one ndjson line written with a single write(2).
// A child that dies or hangs leaves a {"ev":"Crash",...} line, which no specification action accepts.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <climits>
#include <cmath>
#include <cassert>
#include <string>
#include <vector>
#include <array>
#include <utility>
#include <random>
#include <functional>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

#ifdef VH_COV // coverage of the library by the harnesses (tools/cov.py)
extern "C" void __gcov_dump(void);
#define _exit(n) (__gcov_dump(), ::_exit(n))
#endif

namespace vh {
constexpr long BAD = 1000000007; // stands for "not an exact small integer"

inline int out_fd = -1;
inline long cur_case = -1;
inline int shard = 0, nshards = 1;
inline long case_counter = 0;
inline unsigned long seed = 1;
inline bool thorough = false;
inline std::string input_path;
inline long only_case = -1;
inline int cpu_limit_s = 20;
inline int crashes = 0; // a shard stops after a few: what it needs to show is on record

// index type: UINT_MAX / SIZE_MAX / -1 all become -1
inline long IX(unsigned int i) { return i == UINT_MAX ? -1 : (i > 1000000000u ? BAD : (long) i); }
inline long IX(int i) { return (i > 1000000000 || i < -1000000000) ? BAD : i; }
inline long IX(unsigned long i) { return i == ULONG_MAX ? -1 : (i > 1000000000ul ? BAD : (long) i); }
inline long IX(long i) { return (i > 1000000000l || i < -1000000000l) ? BAD : i; }
inline long IX(bool b) { return b ? 1 : 0; }
// exact integer value of scale*v, or BAD
inline long EX(double v, double scale = 1.0) {
  double w = v * scale;
  if (!(std::fabs(w) < 1.0e9)) return BAD;
  double r = std::rint(w);
  if (r != w) return BAD;
  return (long) r;
}
// rounded to 1/scale, BAD if not within tol of a multiple
inline long RX(double v, double scale, double tol) {
  double w = v * scale;
  if (!(std::fabs(w) < 1.0e9)) return BAD;
  double r = std::rint(w);
  if (std::fabs(r - w) > tol) return BAD;
  return (long) r;
}

struct J {
  std::string s;
  explicit J(const char *ev) { s = std::string("{\"c\":") + std::to_string(cur_case) + ",\"ev\":\"" + ev + "\""; }
  J &key(const char *k) { s += std::string(",\"") + k + "\":"; return *this; }
  template<class T> J &kv(const char *k, T v) { key(k); s += std::to_string(IX(v)); return *this; }
  J &ks(const char *k, const std::string &v) {
    key(k); s += '"';
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { s += '\\'; s += (char) c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; }
      else s += (char) c;
    }
    s += '"'; return *this;
  }
  J &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
  template<class V> J &arr(const char *k, const V &v) { key(k); s += str(v); return *this; }
  template<class V> static std::string str(const V &v) {
    std::string r = "["; bool f = true;
    for (const auto &x : v) { if (!f) r += ','; f = false; r += std::to_string(IX(x)); }
    return r + "]";
  }
  template<class VV> J &arr2(const char *k, const VV &v) {
    key(k); s += '['; bool f = true;
    for (const auto &x : v) { if (!f) s += ','; f = false; s += str(x); }
    s += ']'; return *this;
  }
  template<class V> J &ptr(const char *k, const V *p, size_t n) {
    key(k); s += '[';
    for (size_t i = 0; i < n; ++i) { if (i) s += ','; s += std::to_string(IX(p[i])); }
    s += ']'; return *this;
  }
  void emit() {
    s += "}\n";
    const char *p = s.data(); size_t n = s.size();
    while (n) { ssize_t k = ::write(out_fd, p, n); if (k <= 0) _exit(99); p += k; n -= k; }
    s.clear();
  }
};

inline bool mine() { // decide whether this shard runs the next case; sets cur_case
  cur_case = case_counter++;
  if (only_case >= 0) return cur_case == only_case;
  return (cur_case % nshards) == shard;
}

inline void run_case(const std::function<void()> &f) {
  if (!mine()) return;
  if (crashes >= 8 && only_case < 0) return;
  fflush(stdout); fflush(stderr);
  const pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(98); }
  if (pid == 0) {
    struct rlimit rl; rl.rlim_cur = cpu_limit_s; rl.rlim_max = cpu_limit_s + 1; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = (rlim_t) 3 << 30; setrlimit(RLIMIT_AS, &rl); // a runaway allocation is a crash of the case
    alarm(200);
    try { f(); }
    catch (...) { J("Crash").kv("sig", 1000).emit(); _exit(0); }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  if (WIFSIGNALED(st)) {
    crashes++;
    const int sg = WTERMSIG(st);
    if (sg == SIGKILL) { fprintf(stderr, "child killed (out of memory?)\n"); exit(97); }
    if (sg == SIGALRM) { J("Crash").kv("sig", 2000).emit(); return; }
    J("Crash").kv("sig", sg).emit();
  } else if (WEXITSTATUS(st) != 0) { fprintf(stderr, "child exit %d\n", WEXITSTATUS(st)); exit(96); }
}

// usage: exe out.ndjson shard nshards seed tier [input]   (env VH_ONLY=<case> restricts)
inline void init(int argc, char **argv) {
  if (argc < 6) { fprintf(stderr, "usage\n"); exit(95); }
  out_fd = open(argv[1], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (out_fd < 0) { perror(argv[1]); exit(95); }
  shard = atoi(argv[2]); nshards = atoi(argv[3]); seed = strtoul(argv[4], nullptr, 10);
  thorough = !strcmp(argv[5], "thorough");
  if (argc > 6) input_path = argv[6];
  if (const char *o = getenv("VH_ONLY")) only_case = atol(o);
  if (!getenv("VH_VERBOSE")) {
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    if (!getenv("VH_STDERR")) { /* keep assert messages out of the way */ dup2(dn, 2); }
  }
}

// deterministic generator, independent of the C++ library's distributions
struct Rng {
  uint64_t x;
  explicit Rng(uint64_t s) : x(s * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; ++i) next(); }
  uint64_t next() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545F4914F6CDD1Dull; }
  int operator()(int n) { return n <= 0 ? 0 : (int) ((next() >> 20) % (uint64_t) n); }
  int range(int a, int b) { return a + (*this)(b - a + 1); }
};

inline std::vector<std::vector<long>> read_lines(const std::string &path) {
  std::vector<std::vector<long>> r; std::ifstream f(path); std::string l;
  while (std::getline(f, l)) { std::istringstream is(l); std::vector<long> v; long x; while (is >> x) v.push_back(x); r.push_back(v); }
  return r;
}
} // namespace vh
