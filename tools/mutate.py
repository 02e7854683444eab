#!/usr/bin/env python3
"""Small random changes on executed lines of the anchored files of a property (build/cov_Cxx.json from tools/cov.py);
prints those the quick check does not notice.   usage: mutate.py Cxx N [seed]"""
import os, sys, json, random, re, shutil, subprocess, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, N = sys.argv[1], int(sys.argv[2]); rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
ROOT = "/tmp/mut_" + pid
shutil.rmtree(ROOT, ignore_errors=True); os.makedirs(ROOT)
subprocess.check_call(["cp", "-a", "/repo/include", ROOT + "/include"])
for d in ("test_inputs", "test_cpp"):
    if os.path.isdir("/repo/" + d): os.symlink("/repo/" + d, ROOT + "/" + d)
os.environ["VERIF_REPO"] = ROOT; os.environ["VERIF_TIER"] = "quick"
sys.path.insert(0, V + "/lib")
import vlib, importlib
cache = {}; lock = threading.Lock()
class Ck(vlib.Check):
    def __init__(s):
        vlib.Check.__init__(s, pid + "_mut", "quick"); s.pid = pid
    def model(s, *a, **k): return ""
    def log(s, *a): pass
    def generate(s, mod, cfg=None, **k):
        key = (mod, cfg, str(sorted((k.get("env") or {}).items())))
        if key not in cache: cache[key] = vlib.Check.generate(s, mod, cfg, **k)
        return cache[key]
    def tlc(s, mod, cfg=None, env=None, **k):
        if env and "TRACE" in env: return vlib.Check.tlc(s, mod, cfg, env=env, **k)
        key = ("tlc", mod, cfg, str(sorted((env or {}).items())))
        if key not in cache: cache[key] = vlib.Check.tlc(s, mod, cfg, env=env, **k)
        return cache[key]
    def _run_trace(s, mod, cfg, f, env, timeout, mem):
        key = (f,); r = s.__dict__.setdefault("rt", {})
        if key in r: return r.pop(key)
        x = vlib.Check._run_trace(s, mod, cfg, f, env, timeout, mem); r[key] = x; return x
mod = importlib.import_module("p_" + pid)
def go():
    ck = Ck()
    try: mod.run(ck)
    except vlib.EnvError as e: return ("compile" if "does not compile" in str(e) else "env " + str(e)[-300:]) if not ck.violations else "caught"
    return "caught" if ck.violations else "survived"
r = go()
if r != "survived": print(pid, "unchanged tree:", r); sys.exit(1)
cov = {}
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
want = {os.path.basename(f) for f in props[pid]["anchors"]["files"]}
for n, l in json.load(open(V + "/build/cov_%s.json" % pid)):
    if n in want: cov.setdefault(n, set()).add(l)
OPS = [(r"(?<![<>=!+\-*/&|])<(?![<=])", ["<="]), (r"(?<![<>=\-])>(?![>=])", [">="]), (r"<=", ["<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<![+e(,=\[])\s\+\s", [" - "]), (r"(?<![\-e(,=\[])\s-\s", [" + "]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["1", "0"]), (r"\b3\b(?!\.)", ["2"]),
       (r"\+= ", ["-= ", "= "]), (r"\+\+", ["--"]), (r"\.clear\(\);", [";"]), (r"% 3", ["% 2"]), (r"\* ", ["+ "]), (r"std::min", ["std::max"]), (r"std::max", ["std::min"])]
sites = []
for f in sorted(cov):
    L = open(ROOT + "/include/delfem2/" + f, encoding="latin-1", newline="").read().split("\n")
    for i in sorted(cov[f]):
        t = L[i - 1]
        if "assert" in t or "template" in t or t.strip().startswith(("//", "#", "for (unsigned int i = 0; i < aPo", "DFM2_INLINE", "std::cout")): continue
        code = t.split("//")[0]
        for p, reps in OPS:
            if p.startswith("(?<![<>=!") or p.startswith("(?<![<>=\\-])>"):
                if re.search(r"vector<|_cast<|std::\w+<|<\w+>|<<|->", code): continue
            for m in re.finditer(p, code):
                for q in reps: sites.append((f, i, m.start(), m.end(), q))
rng.shuffle(sites)
st = dict(caught=0, survived=0, compile=0); k = 0
for (f, i, a, b, q) in sites:
    if st["caught"] + st["survived"] >= N: break
    p = ROOT + "/include/delfem2/" + f
    s = open(p, encoding="latin-1", newline="").read(); L = s.split("\n"); o = L[i - 1]
    L[i - 1] = o[:a] + q + o[b:]
    open(p, "w", encoding="latin-1", newline="").write("\n".join(L))
    r = go(); st[r if r in st else "compile"] += 1
    if r != "caught" and r != "compile": print("%s %s %s:%d\n   - %s\n   + %s" % (pid, r, f, i, o.strip(), L[i - 1].strip()), flush=True)
    open(p, "w", encoding="latin-1", newline="").write(s)
print(pid, st, "of", len(sites), "sites", flush=True)
shutil.rmtree(ROOT); shutil.rmtree(os.path.join(V, "build", pid + "_mut"), ignore_errors=True)
