import os, random
from concurrent.futures import ThreadPoolExecutor
KINDS = dict(C06=["tri", "quad", "tet", "hex", "line", "vox"], C07=["mix", "tri", "quad", "tet"])
DEP = dict(tri=(3, 4), quad=(4, 5), tet=(4, 5), hex=(2, 3), line=(4, 5), vox=(3, 4), mix=(3, 4))
MDEP = dict(tri=(3, 4), quad=(4, 5), tet=(4, 5), hex=(2, 3), line=(3, 4), vox=(3, 5), mix=(3, 4))
def run(ck, mix="0"):
    kinds = KINDS[ck.pid]; t = 1 if ck.thorough else 0
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_conn.cpp")
        fs = [ex.submit(ck.generate, "MeshConnMC", env=dict(MESH_MODE="gen", MESH_KIND=k, MESH_DEPTH=str(DEP[k][t] - (1 if mix == "1" and k != "mix" and t else 0))), mem="4g") for k in kinds]
        fm = [ex.submit(ck.model, "MeshConnMC", env=dict(MESH_MODE="mc", MESH_KIND=k, MESH_DEPTH=str(MDEP[k][t])), mem="4g") for k in kinds]
        outs = [f.result() for f in fs]; exe = fb.result()
        for f in fm: f.result()
    rng = random.Random(ck.seed); lines = []; tot = 0
    cap = 1500 if ck.thorough else 160
    if mix == "1": cap = cap * 2
    for beh in outs:
        tot += len(beh)
        if len(beh) > cap: beh = rng.sample(beh, cap)
        for b in beh: lines.append(" ".join(str(x) for e in b for x in e))
    inp = os.path.join(ck.dir, "beh.txt"); open(inp, "w").write("\n".join(lines) + "\n")
    ck.extra["behaviours_enumerated"] = tot; ck.extra["behaviours_replayed"] = len(lines)
    files = ck.record(exe, inp, env=dict(CONN_MIX=mix))
    ck.validate("MeshConnTrace", files, what="mesh connectivity")
