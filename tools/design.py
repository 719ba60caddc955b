#!/usr/bin/env python3
"""DESIGN.md = tools/design.md with the per-property section (from tools/table.py + tools/method.py) and the planted-bug table filled in."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.md").read()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
chk = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c for c in man["not_applicable"]}
M = {}
exec(open(V + "/tools/method.py").read())
out = ["## Properties and how each is decided", ""]
for p in props:
    i = p["id"]
    out += ["### %s - %s" % (i, p["title"]), "", p["statement"], ""]
    if i in chk:
        out += ["*Technique*: " + chk[i]["technique"] + ".", "", "*Strength and bounds*: " + chk[i]["level_note"], ""]
    else:
        out += ["*Not claimed*: " + na[i]["reason"], ""]
    if i in M:
        out += [M[i].strip(), ""]
res = {}
if os.path.exists(V + "/tools/seed_results.json"):
    res = json.load(open(V + "/tools/seed_results.json"))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], res.get(n, "(not yet run)")))
open(V + "/DESIGN.md", "w").write(t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(rows)))
