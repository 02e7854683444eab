import os, random
from concurrent.futures import ThreadPoolExecutor
GEN = dict(quad=(4, 5), hex=(2, 2), tet=(3, 5))
MC = dict(quad=((3, 2), (4, 2)), hex=((1, 1), (2, 1)), tet=((2, 1), (4, 1)))
def run(ck):
    t = 1 if ck.thorough else 0
    e = lambda m, k, d, l: dict(MESH_MODE=m, MESH_KIND=k, MESH_DEPTH=str(d), MESH_LEVEL=str(l))
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_subdiv.cpp")
        fs = [ex.submit(ck.generate, "SubdivMC", env=e("gen", k, GEN[k][t], 0), mem="4g", workers=2) for k in GEN]
        fm = [ex.submit(ck.model, "SubdivMC", env=e("mc", k, *MC[k][t]), mem="4g", workers=2) for k in MC]
        outs = [f.result() for f in fs]; exe = fb.result()
        for f in fm: f.result()
    rng = random.Random(ck.seed); lines = []; tot = 0; cap = 1500 if ck.thorough else 220
    for beh in outs:
        tot += len(beh)
        if len(beh) > cap: beh = rng.sample(beh, cap)
        for b in beh: lines.append(" ".join(str(x) for e in b for x in e))
    inp = os.path.join(ck.dir, "beh.txt"); open(inp, "w").write("\n".join(lines) + "\n")
    ck.extra["behaviours_enumerated"] = tot; ck.extra["behaviours_replayed"] = len(lines)
    files = ck.record(exe, inp)
    ck.validate("SubdivTrace", files, what="mesh subdivision")
