import os
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_par.cpp")
        n = "4" if ck.thorough else "3"
        fm = ex.submit(ck.model, "ParForMC", env=dict(PF_MODE="mc", PF_N=n, PF_K="3"), workers=4)
        fg = ex.submit(ck.generate, "ParForMC", "ParForGen", env=dict(PF_MODE="gen", PF_N="5" if ck.thorough else "4", PF_K="4" if ck.thorough else "3"), workers=3)
        beh = fg.result(); exe = fb.result(); fm.result()
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in sorted(beh)))
    ck.extra["behaviours_enumerated"] = ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("ParForTrace", ck.record(exe, inp), what="parallel loops")
