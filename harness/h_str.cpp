// C20: text splitting
#include "vh.h"
#include <map>
#include "delfem2/str.h"
using namespace delfem2; using namespace vh;
typedef std::string S; typedef std::vector<S> VS;
static std::vector<long> cs(const S &s) { std::vector<long> v; for (unsigned char c : s) v.push_back(c); return v; }
static std::vector<std::vector<long>> css(const VS &a) { std::vector<std::vector<long>> v; for (auto &s : a) v.push_back(cs(s)); return v; }
static S jm(const std::map<S, S> &m) { S s = "["; bool f = true; for (auto &p : m) { if (!f) s += ','; f = false; s += "[" + J::str(cs(p.first)) + "," + J::str(cs(p.second)) + "]"; } return s + "]"; }
static void all(Rng &r, const S &s, bool few) {
  auto any = [&](const S &d) { J("Any").arr("s", cs(s)).arr("d", cs(d)).arr2("r", css(Split(s, d))).emit(); };
  any(" ="); any(r(2) ? "," : "(),\""); { char d = ",= (a"[r(5)]; VS t; if (r(2)) t = {"old", ""}; Split(t, s, d); J("Any").arr("s", cs(s)).arr("d", cs(S(1, d))).arr2("r", css(t)).emit(); VS u = Split(s, d); if (u != t) J("Bad").emit(); }
  auto brk = [&](char d, char o, char k) { J("Brk").arr("s", cs(s)).kv("d", (long) d).kv("o", (long) o).kv("k", (long) k).arr2("r", css(Split_Parentheses(s, d, S() + o + k))).emit(); };
  brk(',', '(', ')'); brk(' ', '(', ')'); if (!few) brk('=', '[', ']');
  auto quo = [&](char d, char q) { J("Quo").arr("s", cs(s)).kv("d", (long) d).kv("q", (long) q).arr2("r", css(Split_Quote(s, d, q))).emit(); };
  quo(',', '"'); quo(' ', '"'); if (!few) quo(',', '\'');
  { char a = "a,= "[r(4)], b = "x,("[r(3)]; J("Rep").arr("s", cs(s)).kv("a", (long) a).kv("b", (long) b).arr("r", cs(Replace(s, a, b))).emit(); }
  { S d = VS{" ", ",=", "(\")", "a"}[r(4)]; J("Rem").arr("s", cs(s)).arr("d", cs(d)).arr("r", cs(Remove(s, d))).emit(); if (r(3) == 0) J("Rem").arr("s", cs(s)).arr("d", cs(" ")).arr("r", cs(RemoveSpace(s))).emit(); }
  { S d = VS{" ", " ,", "(\"", "a ="}[r(4)]; J("Trim").arr("s", cs(s)).arr("d", cs(d)).arr("r", cs(RemoveBeginning(s, d))).emit(); }
  J("Enc").arr("s", cs(s)).kv("o", 40).kv("k", 41).arr("r", cs(Get_Parentheses(s, "()"))).emit();
  { std::map<S, S> m; ParseAttributes(m, s); J("Attr").arr("s", cs(s)).raw("r", jm(m)).emit(); }
}
static S word(Rng &r, const S &al, int lo, int hi) { S s; for (int n = r.range(lo, hi); n--;) s += al[r(al.size())]; return s; }
static void tags(Rng &r, const S &s) { std::vector<char> b(s.begin(), s.end()); b.push_back(0); VS t; if (r(3) == 0) t = {"old"}; VS t0 = t; XML_SeparateTagContent(t, b); J("Tags").arr("s", cs(s)).arr2("before", css(t0)).arr2("r", css(t)).emit(); }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  run_case([&] { std::vector<long> a, u, n; for (int k = 0; k < 256; ++k) { a.push_back(isAlphabet((char) k)); u.push_back(isAlphabetUpper(k)); n.push_back(isNumeric(k)); } J("Chr").arr("al", a).arr("up", u).arr("nu", n).emit(); });
  run_case([&] { Rng r(seed); all(r, "", false); tags(r, ""); });
  auto lines = read_lines(input_path); const size_t G = 20;
  for (size_t b = 0; b < lines.size(); b += G) run_case([&] { Rng r(seed * 131 + cur_case); for (size_t i = b; i < b + G && i < lines.size(); ++i) { S s; for (long k : lines[i]) s += (char) k; all(r, s, true); } });
  int nr = thorough ? 3000 : 400;
  for (int i = 0; i < nr; ++i) run_case([&] { Rng r(seed * 577 + cur_case); int k = r(5);
    if (k == 0) for (int q = 0; q < 5; ++q) all(r, word(r, r(2) ? "ab,()" : r(2) ? "a, '\"=" : "ab ,=[]()\"'\n\t;", 1, 30), false);
    else if (k == 1) for (int q = 0; q < 4; ++q) { // attributes
      S s; int n = r(5); for (int a = 0; a < n; ++a) { S sep(1 + r(3), ' '); if (a || r(3) == 0) s += sep; S key = word(r, "abcde", 1, 3); s += key + "="; if (r(3)) s += '"' + word(r, r(2) ? "xyz 0.1,-" : "x =&<", 0, 9) + '"'; else s += word(r, "xyz019.", 1, 5); } if (r(4) == 0) s += " "; std::map<S, S> m; ParseAttributes(m, s); J("Attr").arr("s", cs(s)).raw("r", jm(m)).emit(); }
    else if (k == 2) for (int q = 0; q < 5; ++q) { if (r(2)) tags(r, word(r, "<> ab/", 0, 20)); else { S s = word(r, " \n", 0, 2); for (int n = r(5); n--;) s += "<" + word(r, " ab=/", 0, 6) + ">" + word(r, " ab\n", 0, 6); tags(r, s); } }
    else if (k == 3) for (int q = 0; q < 4; ++q) {
      { std::map<S, S> m; for (int n = 1 + r(4); n--;) { S v = word(r, "uvw0", 0, 1); if (!v.empty()) v += word(r, "uvw0,:.-", 0, 8); m[word(r, "abc_", 1, 4)] = v; } auto sp = [&] { return S(r(4) == 0 ? 1 + r(2) : 0, ' '); }; S s = sp() + "{"; bool f = true; for (auto &p : m) { if (!f) s += sp() + ","; f = false; s += sp() + '"' + p.first + '"' + sp() + ":" + sp() + '"' + p.second + '"'; } s += sp() + "}"; J("Dict").raw("m", jm(m)).raw("r", jm(ReadDictionary_Json(s))).emit(); }
      { std::vector<long> m; S s; for (int n = r(6); n--;) { long v = r.range(-999, 999); char b[40]; int f = r(4); if (f == 0) { snprintf(b, 40, "%ld", v * 4); v *= 32; } else if (f == 1) { snprintf(b, 40, "%.3f", v / 8.); } else if (f == 2) { snprintf(b, 40, "%.10e", v / 8.); } else snprintf(b, 40, " %.4f ", v / 8.); if (!m.empty()) s += ","; s += b; m.push_back(v); } if (!m.empty() && r(4) == 0) s += ","; std::vector<double> a; ReadVector_CSV(a, s); std::vector<long> o; for (double d : a) o.push_back(EX(d, 8)); J("Csv").arr("m", m).arr("r", o).emit(); } }
    else for (int q = 0; q < 6; ++q) { static const VS W = {"-a", "-b", "--n", "7", "-12", "0", "250", "txt", "-", "12x"}; VS a = {"prog"}; for (int n = r(7); n--;) a.push_back(W[r(W.size())]); std::vector<char *> av; for (auto &t : a) av.push_back(&t[0]); S o = W[r(3)]; char **B = av.data(), **E = B + av.size(); int di = r.range(-5, 5); double dd = r.range(-5, 5) / 8.;
      static const S nums = "[[" + J::str(cs("7")) + ",7],[" + J::str(cs("-12")) + ",-12],[" + J::str(cs("0")) + ",0],[" + J::str(cs("250")) + ",250]]";
      J("Opt").arr2("args", css(a)).arr("o", cs(o)).kv("has", cmdOptionExists(B, E, o)).arr("str", cs(getCmdOptionStr(B, E, o))).kv("di", di).kv("int", getCmdOptionInt(B, E, o, di)).kv("dd", EX(dd, 8)).kv("dbl", EX(getCmdOptionDouble(B, E, o, dd), 8)).raw("nums", nums).emit(); } });
}
