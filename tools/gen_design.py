#!/usr/bin/env python3
"""DESIGN.md from doc/head.md, doc/notes.py, the checks, the findings and the planted bugs."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/doc", V + "/tools"]
import notes, seeds
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
chk = {c["property"]: c for c in man["checks"]}
na = {n["property"]: n["reason"] for n in man.get("not_applicable", [])}
kf = json.load(open(V + "/known_findings.json"))
out = [open(V + "/doc/head.md").read()]
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in chk:
        src = open(V + "/checks/%s.py" % i.lower()).read()
        m = re.search(r'main\(Check\((.*)\)\s*,\s*body', src, re.S)
        a = eval("(" + m.group(1) + ",)")
        out.append("* Decided by: %s." % chk[i]["technique"])
        out.append("* Runs: %s." % a[2])
        if len(a) > 3 and a[3]:
            out.append("* Assumes: %s." % "; ".join(a[3]))
        n = notes.N.get(i)
        if n:
            out.append("* " + n[0])
            out.append("* Quick check about %s; the thorough one runs 10-50 times as many cases." % n[1])
        out.append("* Strength: %s." % chk[i]["level_note"])
    else:
        out.append("* Not claimed: %s" % na.get(i, ""))
    out.append("")
out.append("## Defects found and repaired\n")
ent = kf if isinstance(kf, list) else kf.get("findings", kf)
for e in ent:
    if e.get("status") == "fixed" or "commit" in e:
        out.append("* fixed: property=%s %s %s" % (e.get("property"), e.get("commit"), e.get("what", e.get("desc", ""))))
out.append("\n## Known findings (not repaired)\n")
for e in ent:
    if not (e.get("status") == "fixed" or "commit" in e):
        out.append("* %s %s: %s" % (e.get("property"), e.get("id", e.get("key", "")), e.get("what", e.get("desc", ""))))
out.append("\n## False alarms met\n")
out += ["* " + x for x in notes.FALSE_ALARMS]
out.append("\n## Planted bugs\n\nEach was written from the property and the code; the result is that of the quick check.\n")
out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
res = json.load(open(V + "/doc/caught.json")) if os.path.exists(V + "/doc/caught.json") else {}
for i, x in seeds.S.items():
    out.append("| %s | %s | %s | %s |" % (i, x["property"], x["needs"], res.get(i, "?")))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out), "lines")
