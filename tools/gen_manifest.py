#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import config
NA = config.NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: all seams are link-level (symbol renaming) and compiler instrumentation applied by tools/build.py. Commits in /repo are fix: commits only."}
for p in props:
    i = p["id"]
    if i in config.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection (seeded schedule and fault search, replayable, minimised)",
            "level": "exploration",
            "level_note": "Seeded search over schedules and fault sequences of the real library code under a simulated OS; a pass means no sampled run of the workload violated the property. " + config.CHECKS[i].get("note", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
