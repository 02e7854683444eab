import os
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_blksparse.cpp")
        fm = ex.submit(ck.model, "BlkSparseMC", env=dict(BLK_MODE="mc", BLK_MAX="3" if ck.thorough else "2"), workers=6 if ck.thorough else 3)
        fg = ex.submit(ck.generate, "BlkSparseMC", env=dict(BLK_MODE="gen", BLK_MAX="4" if ck.thorough else "3"), workers=3)
        beh = fg.result(); exe = fb.result(); fm.result()
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_enumerated"] = ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("BlkSparseTrace", ck.record(exe, inp), what="assembly histories")
