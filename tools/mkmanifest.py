#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        t = TECH[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                       "technique": t[0], "level": "exploration", "level_note": t[1]})
    else:
        na.append({"property": p, "reason": "no check built yet (work in progress; the method is in DESIGN.md)"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo's current src/ into /verif/build (git-ignored), links monitors from harness/ (linker --wrap, no hooks in /repo) and judges executions with the oracles in checks/ and vlib/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
