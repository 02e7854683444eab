// C19: formula evaluator
#include "vh.h"
#include <memory>
#include "delfem2/parse_math_expression.h"
using namespace delfem2; using namespace vh;
typedef std::vector<std::string> VS;
static const VS CODES = {"x", "2", "+", "-", "*", "/", "^", "(", ")", "abs", "floor", "3"};
static bool word(const std::string &t) { return !(t.size() == 1 && strchr("+-*/^()", t[0])); }
static std::string js(const VS &t) { std::string s = "["; for (size_t i = 0; i < t.size(); ++i) { if (i) s += ','; s += '"' + t[i] + '"'; } return s + "]"; }
struct Ev { std::unique_ptr<CMathExpressionEvaluator> e; Rng &r; bool ok = false; std::vector<std::string> keys; explicit Ev(Rng &r_) : r(r_) { e.reset(new CMathExpressionEvaluator()); J("New").emit(); }
  std::string text(const VS &t, int sp) { std::string s; for (size_t i = 0; i <= t.size(); ++i) { if (sp == 2) s += i % 2 ? " " : "\n"; else if (sp == 1 && r(3) == 0) s += r(4) == 0 ? "\r\n" : r(2) ? " " : "  "; if (i < t.size()) s += t[i]; } return s; }
  void key(const std::string &k, long n, long d) { e->SetKey(k, (double) n / (double) d); bool f = false; for (auto &q : keys) f = f || q == k; if (!f) keys.push_back(k); J("Key").ks("k", k).kv("n", n).kv("d", d).emit(); }
  bool exp(const VS &t, int sp, bool fresh = false) { for (size_t i = 0; i + 1 < t.size(); ++i) if (word(t[i]) && word(t[i + 1])) return ok; std::string s = text(t, sp); if (fresh) { e.reset(new CMathExpressionEvaluator()); keys.clear(); J("New").emit(); } ok = e->SetExp(s); J("Exp").raw("t", js(t)).kv("ret", ok).emit(); return ok; }
  void eval() { if (!ok) return; double v = e->Eval() * 1000; long w = !(std::fabs(v) < 2e9) ? 2000000001 : (long) std::floor(v + .5); J j("Eval"); j.raw("v", std::to_string(w)); j.emit(); }
  void used(const std::string &k) { if (!ok) return; J("Used").ks("k", k).kv("r", e->IsKeyUsed(k)).emit(); } };
static VS gen(Rng &r, int d, const VS &leaf) { // a formula, now and then with needless parentheses
  static const char *F[] = {"abs", "floor", "sqrt", "sin", "cos", "exp", "log"}; static const char *O[] = {"+", "-", "*", "/", "^", "-", "/", "*"};
  VS v; int k = d <= 0 ? 0 : r(12);
  auto add = [&](const VS &w) { v.insert(v.end(), w.begin(), w.end()); };
  if (k == 0) v = {leaf[r(leaf.size())]};
  else if (k == 1) { v = {r(2) ? "-" : "+"}; add(gen(r, d - 1, leaf)); }
  else if (k == 2) { v = {F[r(7)], "("}; add(gen(r, d - 1, leaf)); v.push_back(")"); }
  else if (k == 3) { v = {"("}; add(gen(r, d - 1, leaf)); v.push_back(")"); }
  else { bool pl = r(5) == 0, pr = r(4) == 0; if (pl) v.push_back("("); add(gen(r, d - 1, leaf)); if (pl) v.push_back(")"); v.push_back(O[r(8)]); if (pr) v.push_back("("); add(gen(r, d - 1, leaf)); if (pr) v.push_back(")"); }
  return v; }
static void change(Rng &r, VS &t) { static const VS S = {"+", "-", "*", "/", "^", "(", ")", "x", "2", "abs", "zz", "1.2.3", ".", "sin", "PI", "1..2"}; int k = r(4); size_t p = r(t.size() + 1);
  if (k == 0) t.insert(t.begin() + p, S[r(S.size())]); else if (p < t.size() && k == 1) t.erase(t.begin() + p); else if (p < t.size() && k == 2) t[p] = S[r(S.size())]; else if (p + 1 < t.size()) std::swap(t[p], t[p + 1]); }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  auto lines = read_lines(input_path); const size_t G = 12;
  for (size_t b = 0; b < lines.size(); b += G) run_case([&] { Rng r(seed * 131 + cur_case); Ev E(r); E.key("x", -2, 1); int mode = r(3);
    for (size_t i = b; i < b + G && i < lines.size(); ++i) { VS t; for (long k : lines[i]) t.push_back(CODES[k - 1]); if (E.exp(t, mode)) { E.eval(); E.key("x", 3, 2); E.eval(); E.key("x", r.range(-3, 4), 1); } else if (r(3) == 0) E.key("x", r.range(-3, 4), 1); } });
  int nr = thorough ? 4000 : 600;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 577 + cur_case); Ev E(r); static const VS ALL = {"x", "y", "xx", "PI", "0", "1", "2", "3", "4", "7", "0.5", ".5", "2.25", "3.", "10", "1000", "007", "y1", "x", "y", "2"}; VS leaf; for (int k = 0; k < 4; ++k) leaf.push_back(ALL[r(ALL.size())]); leaf.push_back("x");
    static const VS KS = {"x", "y", "xx", "y1", "sin", "PI"}; auto key = [&] { int d = 1 + r(2); E.key(KS[r(r(3) ? 2 : 6)], r.range(-6, 9), d); };
    for (int k = r(4); k--;) key();
    for (int k = 0; k < 14; ++k) { int op = r(10); if (op < 4) { VS t = gen(r, 1 + r(4), leaf); if (r(3) == 0) for (int q = 1 + r(2); q--;) change(r, t); bool fresh = r(9) == 0; if (t.empty()) continue; if (r(12) == 0) t = r(2) ? VS{"exp", "(", "1000", ")"} : VS{"10", "^", "1000"}; E.exp(t, r(3), fresh); } else if (op < 6) key(); else if (op < 9) E.eval(); else E.used(KS[r(6)]); }
  });
}
