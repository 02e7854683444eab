#!/usr/bin/env python3
"""Planted bugs: tools/seeddefs/<id>.txt -> seeded/<id>/{patch.diff,demo.cpp,demo.sh,meta.json}, each confirmed on a copy of
/repo that is bind-mounted over /repo in a private mount namespace (so the real /repo is never touched).
usage: seed.py make ID...   confirm (builds, tests pass, demo 0 / nonzero) and write seeded/<id>
       seed.py hunt ID...   run the property's check against the patched copy"""
import json, os, re, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/seedrepo"
SH = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cd "${REPO:-/repo}" || exit 3
g++ -std=c++17 -O1 -w -include cstdint -I include "$d/demo.cpp" -o "$t/demo" -lpthread || exit 3
cd "$t" && timeout 100 ./demo
"""
def parse(i):
    t = open(os.path.join(V, "tools/seeddefs", i + ".txt")).read()
    head, demo = t.split("\ndemo:\n", 1)
    d = dict(demo=demo, edits=[])
    for k in ("property", "needs", "breaks"):
        d[k] = re.search(r"^%s: (.*)$" % k, head, re.M).group(1).strip()
    cur = None
    for m in re.finditer(r"^file: ([^\n]*)$|^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", head, re.M | re.S):
        if m.group(1): cur = m.group(1).strip()
        else: d["edits"].append((cur, m.group(2), m.group(3)))
    assert d["edits"], i
    return d
def ns(cmd):
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && %s" % (COPY, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def sync():
    if not os.path.isdir(COPY): subprocess.check_call(["cp", "-a", "/repo", COPY])
    subprocess.check_call(["git", "-C", COPY, "checkout", "-q", "--", "."])
    h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    g = subprocess.check_output(["git", "-C", COPY, "rev-parse", "HEAD"], text=True).strip()
    if h != g:
        subprocess.check_call(["git", "-C", COPY, "fetch", "-q", "/repo", "HEAD"])
        subprocess.check_call(["git", "-C", COPY, "checkout", "-q", h])
def apply(d):
    for f, a, b in d["edits"]:
        p = os.path.join(COPY, f); s = open(p, encoding="latin-1").read()
        o = subprocess.check_output(["git", "-C", COPY, "show", "e3c7d3f:" + f]).decode("latin-1")
        for x in a.split("\n"):
            if x.strip() and x not in b.split("\n") and x not in o.replace("\r", ""): print("  not an original line:", x); return False
        if s.count(a) != 1: print("  edit matches %d times in %s:\n%s" % (s.count(a), f, a)); return False
        open(p, "w", encoding="latin-1").write(s.replace(a, b))
    return True
def passed(o):
    r = json.load(open(o)); return r
def make(i):
    d = parse(i); sync()
    out = os.path.join(V, "seeded", i); tmp = tempfile.mkdtemp()
    open(tmp + "/demo.cpp", "w").write(d["demo"]); open(tmp + "/demo.sh", "w").write(SH)
    r = ns("bash %s/demo.sh" % tmp)
    if r.returncode != 0: print(i, "demo fails on the unchanged tree", r.returncode, r.stdout[-1500:]); return False
    if not apply(d): return False
    open(tmp + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", COPY, "diff"]))
    r = ns("bash %s/demo.sh" % tmp)
    if r.returncode in (0, 3): print(i, "demo does not fail with the change", r.returncode, r.stdout[-1500:]); return False
    print(i, "demo with the change: rc", r.returncode, r.stdout.strip()[-120:])
    r = ns("bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; echo build $?; bash /opt/vp/test.sh /tmp/seed_o.json >/tmp/seed_test.log 2>&1; echo test $?")
    base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open("/tmp/seed_o.json"))
    st = set(base.get("stable") or base.get("tests") or base.get("passed") or [])
    ok = set(res.get("passed") or [k for k, v in res.items() if v in (True, "passed", "pass")])
    miss = sorted(st - ok)
    if "build 0" not in r.stdout or miss or not st: print(i, "build/tests:", r.stdout, "missing", miss[:5], len(st), len(ok)); return False
    shutil.rmtree(out, ignore_errors=True); os.makedirs(os.path.dirname(out), exist_ok=True)
    shutil.move(tmp, out); os.chmod(out, 0o755); os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
    print(i, "confirmed"); return True
def hunt(i, tier="quick"):
    d = parse(i); sync()
    if not apply(d): return
    e = dict(os.environ, VERIF_REPO=COPY)
    r = subprocess.run(["python3", V + "/check.py", d["property"], tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=V)
    print(i, d["property"], "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED rc %d" % r.returncode)
    for l in r.stdout.splitlines():
        if "rejected:" in l or "rror" in l: print("   ", l[:200])
ids = sys.argv[2:] or sorted(f[:-4] for f in os.listdir(V + "/tools/seeddefs"))
for i in ids:
    if sys.argv[1] in ("make", "both"):
        if not make(i): continue
    if sys.argv[1] in ("hunt", "both"): hunt(i)
subprocess.call(["git", "-C", COPY, "checkout", "-q", "--", "."])
