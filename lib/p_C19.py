import os
from concurrent.futures import ThreadPoolExecutor
def run(ck):
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(ck.build, "h_expr.cpp")
        fm = ex.submit(ck.model, "FormulaMC", env=dict(FM_MODE="mc", FM_MAX="2" if ck.thorough else "1"), workers=3)
        fg = ex.submit(ck.generate, "FormulaMC", env=dict(FM_MODE="tok", FM_MAX="2" if ck.thorough else "1"), workers=3)
        ft = ex.submit(ck.generate, "FormulaMC", env=dict(FM_MODE="tree", FM_MAX="2" if ck.thorough else "1"), workers=2)
        beh = fg.result() + ft.result(); exe = fb.result(); fm.result()
    inp = os.path.join(ck.dir, "beh.txt")
    open(inp, "w").write("".join(" ".join(map(str, b)) + "\n" for b in beh))
    ck.extra["behaviours_enumerated"] = ck.extra["behaviours_replayed"] = len(beh)
    ck.validate("FormulaTrace", ck.record(exe, inp), what="formulas")
