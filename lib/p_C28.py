import os, random
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    T = ck.thorough
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(ck.build, "h_rigid.cpp")
        fg = ex.submit(ck.generate, "RigidMC", env=dict(RG_GEN="1", RG_SIZE="big" if T else "small"), workers=7, mem="8g")
        beh = sorted(fg.result()); exe = fb.result()
    ck.extra["behaviours_enumerated"] = len(beh)
    cap = 4096 if T else 256
    if len(beh) > cap: beh = random.Random(ck.seed).sample(beh, cap)
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("RigidTrace", ck.record(exe, inp), what="transformations", exe=exe)
    ck.assumptions += ["rotations of integer quaternions, whose matrices are fractions; computed reals are compared to the exact fraction within 1/8192 (inverses: 1/1024)"]
