import os
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_sweep.cpp")
        fm = ex.submit(ck.model, "SweepMC", env=dict(SWEEP_MODE="mc", SWEEP_MAX="5" if ck.thorough else "4"), workers=3)
        fg = ex.submit(ck.generate, "SweepMC", env=dict(SWEEP_MODE="gen", SWEEP_MAX="6" if ck.thorough else "5"), workers=3)
        beh = fg.result(); exe = fb.result(); fm.result()
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_enumerated"] = ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("SweepTrace", ck.record(exe, inp), what="sweeps")
