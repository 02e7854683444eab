import os, random
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_voxel.cpp")
        fm = ex.submit(ck.model, "VoxelMC", env=dict(VOX_MODE="mc", VOX_OPS="2" if ck.thorough else "1"), workers=3)
        fg = ex.submit(ck.generate, "VoxelMC", env=dict(VOX_MODE="gen", VOX_OPS="3" if ck.thorough else "2"), workers=3)
        beh = fg.result(); exe = fb.result(); fm.result()
    tot = len(beh); rng = random.Random(ck.seed); cap = 6000 if ck.thorough else 700
    if tot > cap: beh = rng.sample(beh, cap)
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, d + v + h)) + "\n" for d, v, h in beh))
    ck.extra["behaviours_enumerated"] = tot; ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("VoxelTrace", ck.record(exe, inp), what="voxel grid")
