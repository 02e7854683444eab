import os, random
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    T = ck.thorough
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(ck.build, "h_meas.cpp")
        fg = ex.submit(ck.generate, "GeoMeasMC", env=dict(GM_GEN="1", GM_SIZE="big" if T else "small"), workers=7, mem="8g")
        beh = sorted(fg.result()); exe = fb.result()
    ck.extra["behaviours_enumerated"] = len(beh)
    cap = 4000 if T else 320
    if len(beh) > cap: beh = random.Random(ck.seed).sample(beh, cap)
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("GeoMeasTrace", ck.record(exe, inp), what="measures", exe=exe)
    ck.assumptions += ["integer corners; triangles in space have an integer area (nice triangles) where the area counts; values are compared to the exact fraction within 1/8192"]
