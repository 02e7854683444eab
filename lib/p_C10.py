import os
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_prim.cpp")
        fm = ex.submit(ck.model, "PrimMC", env=dict(PRIM_MODE="mc", PRIM_MAX="6" if ck.thorough else "4"), workers=3)
        fg = ex.submit(ck.generate, "PrimMC", env=dict(PRIM_MODE="gen", PRIM_MAX="12" if ck.thorough else "7"), workers=3)
        beh = fg.result(); exe = fb.result(); fm.result()
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_enumerated"] = ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("PrimTrace", ck.record(exe, inp), what="primitive surfaces")
