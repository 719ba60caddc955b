#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run after editing the table."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
N_A = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a, _t=technique, _n=note, _l=level))


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
checks = []
for p in P:
    if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "./run %s" % p["id"], "thorough_cmd": "./run %s --thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_t"], "level": p["_l"], "level_note": p["_n"]})
    elif p["id"] not in [n["property"] for n in N_A]:
        N_A.append({"property": p["id"], "reason": "check under construction"})
commits = []
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": N_A,
     "notes": "TLA+ specifications in spec/, checked with TLC and bound to the code by replaying TLC's behaviours into, and validating recordings from, the real binaries. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
