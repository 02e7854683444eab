import os, random
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_poly.cpp")
        n = "7" if ck.thorough else "5"
        fm = ex.submit(ck.model, "PolyMesh", env=dict(PM_W="3", PM_H="3", PM_N=n, PM_MODE="mesh"), workers=4, mem="6g")
        fg = ex.submit(ck.generate, "PolyMesh", env=dict(PM_W="3", PM_H="3", PM_N="9", PM_MODE="gen"))
        fg2 = ex.submit(ck.generate, "PolyMesh", env=dict(PM_W="4", PM_H="3" if not ck.thorough else "4", PM_N="6", PM_MODE="gen"))
        b1, b2 = fg.result(), fg2.result(); exe = fb.result(); fm.result()
    rng = random.Random(ck.seed)
    cap1, cap2 = (len(b1), 20000) if ck.thorough else (700, 500)
    beh = rng.sample(b1, min(cap1, len(b1))) + rng.sample(b2, min(cap2, len(b2)))
    inp = os.path.join(ck.dir, "beh.txt")
    with open(inp, "w") as f:
        for b in beh: f.write(" ".join("%d %d" % tuple(p) for p in b) + "\n")
    ck.extra["behaviours_replayed"] = len(beh)
    files = ck.record(exe, inp)
    ck.validate("PolyTrace", files, what="polygon")
