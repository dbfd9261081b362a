#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json, properties.jsonl and na.json."""
import json, subprocess
checks = json.load(open("checks.json"))
props = [json.loads(l) for l in open("properties.jsonl") if l.strip()]
na = json.load(open("na.json"))
m = {"version": 1, "setup_cmd": "python3 build.py setup",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 build.py check %s quick" % i,
            "thorough_cmd": "python3 build.py check %s thorough" % i,
            "technique": "deterministic simulation with fault injection: " + c["technique"],
            "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": na[i]})
m["notes"] = "No hooks in /repo: the seams are the libc, pthread, clock and socket calls, replaced at link time by the simulator in sim/."
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
