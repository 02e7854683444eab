import os, random
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_cad.cpp")
        fm = ex.submit(ck.model, "CadMC", env=dict(CAD_DEPTH="6" if ck.thorough else "5", CAD_MODE="mc"), workers=4, mem="8g")
        fg = ex.submit(ck.generate, "CadMC", env=dict(CAD_DEPTH="5" if ck.thorough else "4", CAD_MODE="gen"))
        beh = fg.result(); exe = fb.result(); fm.result()
    rng = random.Random(ck.seed)
    cap = 12000 if ck.thorough else 1200
    if len(beh) > cap: beh = rng.sample(beh, cap)
    inp = os.path.join(ck.dir, "beh.txt")
    with open(inp, "w") as f:
        for b in beh: f.write(" ".join("%d %d" % tuple(p) for p in b) + "\n")
    ck.extra["behaviours_replayed"] = len(beh)
    files = ck.record(exe, inp)
    ck.validate("CadTrace", files, what="sketch")
