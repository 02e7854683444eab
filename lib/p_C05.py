import os, random
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_cadmesh.cpp")
        fm = ex.submit(ck.model, "CadMeshMC", env=dict(CAD_DEPTH="5" if ck.thorough else "4", CAD_MODE="mc"), workers=4, mem="8g")
        fg = ex.submit(ck.generate, "CadMeshMC", env=dict(CAD_DEPTH="4" if ck.thorough else "3", CAD_MODE="gen"))
        beh = fg.result(); exe = fb.result(); fm.result()
    rng = random.Random(ck.seed)
    cap = 5000 if ck.thorough else 450
    if len(beh) > cap: beh = rng.sample(beh, cap)
    inp = os.path.join(ck.dir, "beh.txt")
    with open(inp, "w") as f:
        for b in beh: f.write("%d %s %s\n" % (len(b["h"]), " ".join("%d %d" % tuple(p) for p in b["h"]), " ".join(map(str, b["nd"]))))
    ck.extra["behaviours_replayed"] = len(beh)
    files = ck.record(exe, inp)
    ck.validate("CadMeshTrace", files, what="sketch mesh")
