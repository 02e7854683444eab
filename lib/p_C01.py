import os, random
from concurrent.futures import ThreadPoolExecutor
SEEDS = {
 "tetra": [(0,1,2),(0,3,1),(0,2,3),(1,3,2)], "tri": [(0,1,2)], "square": [(0,1,2),(0,2,3)],
 "iso": [(0,1,2),(3,4,5),(6,7,8),(6,8,9)],
 "fan5": [(0,1,2),(0,2,3),(0,3,4),(0,4,5),(0,5,1)],
 "octa": [(0,1,2),(0,2,3),(0,3,4),(0,4,1),(1,5,2),(2,5,3),(3,5,4),(1,4,5)],
 "annulus": [(0,1,4),(0,4,3),(1,2,5),(1,5,4),(0,3,2),(2,3,5)],
 "torus7": [t for i in range(7) for t in ((i,(i+1)%7,(i+3)%7),(i,(i+3)%7,(i+2)%7))],
}
DEPTH_Q = dict(tetra=3, tri=4, square=4, iso=3, fan5=3, octa=2, annulus=2, torus7=2)
DEPTH_T = dict(tetra=4, tri=5, square=5, iso=5, fan5=4, octa=3, annulus=4, torus7=3)
def run(ck):
    depth = DEPTH_T if ck.thorough else DEPTH_Q
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_dtri.cpp")

        def gen(n):
            rc, out = ck.tlc("DTriMC", env=dict(DTRI_SEED=n, DTRI_DEPTH=str(depth[n])), tag="gen_" + n, mem="3g")
            return n, rc, out
        outs = list(ex.map(gen, depth))
        exe = fb.result()
    import json, vlib
    rng = random.Random(ck.seed); lines = []; total = 0
    for n, rc, out in outs:
        g, d = ck.tlc_counts(out)
        if rc != 0: raise vlib.EnvError("DTriMC %s rc %d\n%s" % (n, rc, out[-2000:]))
        ck.states += d; ck.transitions += g
        beh = [json.loads(json.loads(l)[2:]) for l in out.splitlines() if l.startswith('"@@')]
        ck.models.append(dict(model="DTriMC/" + n, depth=depth[n], states=d, transitions=g, behaviours=len(beh)))
        total += len(beh)
        cap = 6000 if ck.thorough else 450
        if len(beh) > cap: beh = rng.sample(beh, cap)
        fs = SEEDS[n]; npo = len({v for t in fs for v in t})
        for i, b in enumerate(beh):
            ops = [o for o in b["h"] if o != [0]]
            row = [len(fs)] + [v for t in fs for v in t] + [npo, i % 3, len(ops)]
            for o in ops: row += [len(o)] + o
            lines.append(" ".join(map(str, row)))
    ck.extra["behaviours_enumerated"] = total; ck.extra["behaviours_replayed"] = len(lines)
    inp = os.path.join(ck.dir, "beh.txt"); open(inp, "w").write("\n".join(lines) + "\n")
    files = ck.record(exe, inp)
    ck.validate("DTriTrace", files, what="edit history")
    ck.assumptions += ["edits are called with their documented preconditions (flip only when the new edge does not exist, insertion on interior edges, deletion of an isolated face)",
                       "histories enumerated by TLC up to the stated depth from eight seed meshes; longer histories are sampled"]
