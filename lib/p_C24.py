import os
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    T = ck.thorough
    E = lambda m, n: dict(SP_MODE=m, SP_N=str(n))
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_sep2.cpp"); fc = ex.submit(ck.build, "h_sep3.cpp")
        g2 = ex.submit(ck.generate, "SeparateMC", env=E("gen2", 3), workers=2)
        g3 = ex.submit(ck.generate, "SeparateMC", env=E("gen3", 4), workers=2)
        m2 = ex.submit(ck.model, "SeparateMC", env=E("mc2", 3), workers=2)
        m3 = ex.submit(ck.model, "SeparateMC", env=E("mc3", 4 if T else 3), workers=4)
        b2 = sorted(g2.result()); b3 = sorted(g3.result()); e2 = fb.result(); e3 = fc.result(); m2.result(); m3.result()
    for n, b, e in (("2", b2, e2), ("3", b3, e3)):
        inp = os.path.join(ck.dir, "beh%s.txt" % n)
        open(inp, "w").write("".join(" ".join(map(str, x)) + "\n" for x in b))
        ck.validate("SeparateTrace", ck.record(e, inp), what="intersections", exe=e)
    ck.extra["behaviours_enumerated"] = len(b2) + len(b3)
