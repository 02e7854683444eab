#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what the quick check answered when the bug was first planted, where it needed strengthening
FIRST = dict(l.split(" ", 1) for l in open(os.path.join(V, "tools/first_missed.txt")).read().splitlines() if l)
rows = ["| bug | breaks | needs | caught by (quick) |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s%s |" % (b, m["what_it_breaks"], m["needs"], m["property"], "; missed at first: " + FIRST[b] if b in FIRST else ""))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
a, z = "<!-- planted -->", "<!-- /planted -->"
body = a + "\n" + "\n".join(rows) + "\n" + z
s = s.replace("@@MATRIX@@", body) if "@@MATRIX@@" in s else re.sub(re.escape(a) + ".*?" + re.escape(z), lambda _: body, s, flags=re.S)
open(p, "w").write(s)
