import os
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_ilu.cpp")
        fm = ex.submit(ck.model, "IluMC", env=dict(ILU_MODE="mc", ILU_RULE="first", ILU_MAX="5" if ck.thorough else "4"), workers=3)
        fn = ex.submit(ck.model, "IluMC", env=dict(ILU_MODE="mc", ILU_RULE="min", ILU_MAX="5" if ck.thorough else "3"), workers=2)
        fg = ex.submit(ck.generate, "IluMC", env=dict(ILU_MODE="gen", ILU_RULE="min", ILU_MAX="4" if ck.thorough else "3"), workers=3)
        beh = fg.result(); exe = fb.result(); fm.result(); fn.result()
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_enumerated"] = ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("IluTrace", ck.record(exe, inp), what="factorizations and solutions")
