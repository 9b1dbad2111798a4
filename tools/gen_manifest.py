#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in vf/checks and the list of properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {p["id"] for p in props if os.path.exists(os.path.join(V, "vf", "checks", p["id"].lower() + ".py"))}
checks = []
for p in props:
    if p["id"] in have:
        t = TECH["checks"][p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                           technique=t[0], level="exploration", level_note=t[1]))
na = [dict(property=p["id"], reason=TECH["not_applicable"].get(p["id"], "check not built yet")) for p in props if p["id"] not in have]
m = dict(version=1, setup_cmd="python3 setup_verif.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the monitors observe the public C++, C, Python and command-line interfaces, with compiler sanitizers and system-call interposition from outside.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
