import os
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    T = ck.thorough
    E = lambda m, x, y, z, p: dict(CH_MODE=m, CH_X=str(x), CH_Y=str(y), CH_Z=str(z), CH_P=str(p))
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_hull.cpp")
        f2 = ex.submit(ck.model, "ConvHullMC", env=E("mc2", 4, 4 if T else 3, 1, 0), workers=2)
        f3 = ex.submit(ck.model, "ConvHullMC", env=E("mc3", 2, 2, 2, 6 if T else 5), workers=3)
        g2 = ex.submit(ck.generate, "ConvHullMC", env=E("gen2", 4, 3, 1, 0), workers=1)
        g3 = ex.submit(ck.generate, "ConvHullMC", env=E("gen3", 2, 2, 2, 6 if T else 5), workers=2)
        beh = sorted(g2.result()) + sorted(g3.result()); exe = fb.result(); f2.result(); f3.result()
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_enumerated"] = ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("ConvHullTrace", ck.record(exe, inp), what="convex hulls")
