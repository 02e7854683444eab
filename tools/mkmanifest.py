#!/usr/bin/env python3
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {
 "N01": "The property is numeric consistency of closed-form derivatives over the reals; TLC has no real arithmetic and a model of it would restate the formulas. No state or history is involved that a specification could explore.",
 "N02": "Rounding accuracy of iterative decompositions over continuous inputs is outside what an explicit-state model with integers can express or decide.",
 "N03": "Numeric agreement of curve evaluation, quadrature and root finding over continuous inputs; no finite abstraction of it is decidable in TLC.",
 "N04": "Convergence and residual accuracy of floating-point iterations is a numeric statement; TLC cannot evaluate the iteration over the reals (exact factorizations on integer-valued systems are covered by C16).",
}
TECH = "TLA+ specification checked with TLC; specification behaviours replayed into the real code and recorded executions validated against it"
NOTE = {}
try:
    import sys; sys.path.insert(0, V + "/tools"); from notes import NOTE
except ImportError: pass
checks, na = [], []
for i in ids:
    if os.path.exists(V + "/lib/p_%s.py" % i):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            technique=TECH, level="model_checking",
            level_note=NOTE.get(i, "Exhaustive on the specification within the stated bounds; the code is bound by replaying the enumerated behaviours and validating every recorded step. Trusts TLC, the compiler and the recording harness; beyond the bounds the code is sampled with VERIF_SEED.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check built yet.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Language: TLA+ (TLC). No hooks in /repo: the public API exposes the state the specifications talk about.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
