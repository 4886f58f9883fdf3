#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the check scripts present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def t(pid, technique, note, level="exploration"):
    T[pid] = (technique, level, note)
exec(open(os.path.join(V, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        te, lv, note = T[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i.lower(),
                       "thorough_cmd": "python3 checks/%s.py --thorough" % i.lower(),
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": te, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "All checks rebuild /repo's sources against the folly stand-in in shim/ into build/ (ignored by git)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
