import os, random
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_delaunay.cpp")
        fm = ex.submit(ck.model, "DelaunayMC", env=dict(DL_G="3", DL_N="5" if ck.thorough else "4", DL_MODE="force"), workers=4, mem="8g")
        fg = ex.submit(ck.generate, "DelaunayMC", env=dict(DL_G="3", DL_N="5" if ck.thorough else "4", DL_MODE="gen"))
        beh = fg.result(); exe = fb.result(); fm.result()
    rng = random.Random(ck.seed)
    if not ck.thorough: beh = rng.sample(beh, 500)
    inp = os.path.join(ck.dir, "beh.txt")
    with open(inp, "w") as f:
        for b in beh: f.write(" ".join("%d %d" % tuple(p) for p in b) + "\n")
    ck.extra["behaviours_replayed"] = len(beh)
    files = ck.record(exe, inp)
    ck.validate("DelaunayTrace", files, what="delaunay")
