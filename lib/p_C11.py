import os
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_bvh.cpp")
        fm = ex.submit(ck.model, "BvhMC", env=dict(BVH_MODE="mc", BVH_MAX="4" if ck.thorough else "3"), workers=3)
        fg = ex.submit(ck.generate, "BvhMC", env=dict(BVH_MODE="gen", BVH_MAX="6" if ck.thorough else "4"), workers=3)
        beh = fg.result(); exe = fb.result(); fm.result()
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_enumerated"] = ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("BvhTrace", ck.record(exe, inp), what="hierarchies and searches")
