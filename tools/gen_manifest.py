#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    q = plan.PLAN[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 tools/check.py %s quick" % p["id"], thorough_cmd="python3 tools/check.py %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=q.get("technique", plan.TECH), level="model_checking", level_note=q.get("note", plan.NOTE)))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="RMC_VERIFICATION", enable="tools/build.py compiles /repo's sources with -DRMC_VERIFICATION", source_commits=["81c578c"]),
         checks=checks, not_applicable=[], notes="TLA+ with TLC. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
