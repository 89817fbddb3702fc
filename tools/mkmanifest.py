#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "mc", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": "%s run.py %s --tier quick" % (PY, p["id"]),
        "thorough_cmd": "%s run.py %s --tier thorough" % (PY, p["id"]),
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": consts.get("TECHNIQUE", "stateless model checking: bounded-exhaustive enumeration of the real code against an independent reference model"),
        "level": consts["LEVEL"],
        "level_note": "Bounded-exhaustive over: " + p["quantifier"]["text"] + ". Assumes: " + "; ".join(consts["ASSUMPTIONS"]),
    })
m = {"version": 1, "setup_cmd": "%s -c \"import sys; sys.path.insert(0, '/verif'); import mc.core\"" % PY,
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (explorer, clock, randomness) is replaced from outside through public attributes."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
