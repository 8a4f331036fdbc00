#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  python3 tools/gen.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
H = "cmmcore/"


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), note="", tech="property-based testing", state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [H + f for f in files], "mechanism": [{"name": n, "where": H + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": H + w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": qtext},
                  why_tests_cant=why, anchors=a, _note=note, _tech=tech))


exec(open(f"{V}/tools/props.py").read())

with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(f"{V}/props/{i}.cpp"):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": p["_tech"], "level": "exploration",
                       "level_note": p["_note"] or "Generated-input search against an independent oracle; finds violations, does not establish their absence. Trusts the reference computation in the harness."})
    else:
        na.append({"property": i, "reason": dict(NA).get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based: engine/pbt.h (choice-sequence generator, shrinker, forked workers), props/<id>.cpp (generator + oracle). No hooks are needed in /repo: everything is header-only and observed through its public members."}
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks")
