#!/usr/bin/env python3
"""Which lines of the library do the harnesses of a property execute?  usage: cov.py Cxx...  (quick tier, under build/)"""
import glob, gzip, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
for c in sys.argv[1:]:
    subprocess.run([sys.executable, "check.py", c, "quick"], cwd=V, env=dict(os.environ, VERIF_KEEP="1", VERIF_COV="1"), stdout=subprocess.DEVNULL)
    d = V + "/build/" + c
    fn, ln = {}, {}
    for g in glob.glob(d + "/*.gcda"):
        o = subprocess.run(["gcov", "--json-format", "--stdout", "-m", g], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
        for doc in o.decode().splitlines():
            for f in json.loads(doc)["files"]:
                n = os.path.basename(f["file"])
                if "/delfem2/" not in f["file"]: continue
                for x in f["functions"]:
                    k = (n, x["start_line"], x["demangled_name"].split("(")[0]); fn[k] = max(fn.get(k, 0), x["execution_count"])
                for x in f["lines"]: ln[(n, x["line_number"])] = max(ln.get((n, x["line_number"]), 0), x["count"])
    want = [os.path.basename(f) for f in props[c]["anchors"]["files"]]
    for f in sorted(set(n for n, *_ in ln)):
        t = [k for k in ln if k[0] == f]; h = [k for k in t if ln[k]]
        if f in want or len(h) > 0: print("%s %s%s lines %d/%d" % (c, f, "" if f in want else " (other)", len(h), len(t)))
        if f in want:
            for k in sorted(k for k in fn if k[0] == f and fn[k] == 0): print("    never called:", k[1], k[2])
            miss = sorted(l for (n, l) in t if not ln[(n, l)])
            if miss: print("    not executed:", " ".join(map(str, miss)))
    json.dump([[n, l] for (n, l) in ln if ln[(n, l)]], open(V + "/build/cov_%s.json" % c, "w"))
