#!/usr/bin/env python3
"""regenerate MANIFEST.json from analyzer/rules and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/analyzer")
import rules
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
t = rules.table()
checks = []
na = []
for p in props:
    if p in t:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                       "technique": rules.TECH.get(p, "abstract interpretation of MIR"), "level": t[p][1],
                       "level_note": rules.NOTE.get(p, rules.NOTE["default"])})
    else:
        na.append({"property": p, "reason": rules.NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 analyzer/extract.py", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of the crate's resolved MIR on every run; see DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
