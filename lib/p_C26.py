import os, random
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    T = ck.thorough
    E = lambda m, g, s: dict(GN_MODE=m, GN_GEN=str(g), GN_SIZE=s)
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_near.cpp")
        fe = ex.submit(ck.generate, "GeoNearMC", env=E("edge", 1, "big"), workers=2)
        ft = ex.submit(ck.generate, "GeoNearMC", env=E("tri", 1, "big" if T else "small"), workers=6 if T else 5, mem="8g")
        edges = sorted(fe.result()); tris = sorted(ft.result()); exe = fb.result()
    ck.extra["behaviours_enumerated"] = len(edges) + len(tris)
    R = random.Random(ck.seed)
    ce, ct = (8000, 20000) if T else (1200, 2000)
    if len(edges) > ce: edges = R.sample(edges, ce)
    if len(tris) > ct: tris = R.sample(tris, ct)
    beh = edges + tris
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("GeoNearTrace", ck.record(exe, inp), what="nearest points", exe=exe)
    ck.assumptions += ["corners on the integer lattice 0..3 (edges and triangles, degenerate ones included), points in -1..4, moved and scaled by six affine frames; values are compared to the exact fraction with an absolute tolerance of 2e-7 per denominator"]
