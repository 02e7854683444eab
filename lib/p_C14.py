import os
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_slice.cpp")
        fm = ex.submit(ck.model, "SliceMC", env=dict(SLICE_MODE="mc", SLICE_MAX="big" if ck.thorough else "small"), workers=3)
        fg = ex.submit(ck.generate, "SliceMC", env=dict(SLICE_MODE="gen", SLICE_MAX="big" if ck.thorough else "small"), workers=3)
        beh = fg.result(); exe = fb.result(); fm.result()
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_enumerated"] = ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("SliceTrace", ck.record(exe, inp), what="sections")
