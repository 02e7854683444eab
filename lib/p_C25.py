import os, random
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    T = ck.thorough
    E = lambda m, n: dict(DT_MODE=m, DT_N=str(n), DT_L="8")
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_dtet.cpp")
        fm = ex.submit(ck.model, "DTetMC", env=E("deep", 4 if T else 3), workers=4, mem="8g")
        fg = ex.submit(ck.generate, "DTetMC", env=E("gen", 4 if T else 3), workers=2)
        beh = sorted(fg.result()); exe = fb.result(); fm.result()
    ck.extra["behaviours_enumerated"] = len(beh)
    cap = 4000 if T else 500
    if len(beh) > cap: beh = random.Random(ck.seed).sample(beh, cap)
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join("%d %d %d" % tuple(p) for p in b) + "\n" for b in beh))
    ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("DTetTrace", ck.record(exe, inp), what="tetrahedra", exe=exe)
    ck.assumptions += ["points lie strictly inside the first tetrahedron, on the integer lattice, and exactly on no circumscribed sphere of the current mesh (where the result is determined)"]
