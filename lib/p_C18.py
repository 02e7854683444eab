import os
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_lp.cpp")
        fm = ex.submit(ck.model, "LinProgMC", env=dict(LP_MODE="mc", LP_MAX="2" if ck.thorough else "1"), workers=3)
        fg = ex.submit(ck.generate, "LinProgMC", env=dict(LP_MODE="gen", LP_MAX="1"), workers=3)
        beh = fg.result(); exe = fb.result(); fm.result()
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_enumerated"] = ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("LinProgTrace", ck.record(exe, inp), what="linear programs")
