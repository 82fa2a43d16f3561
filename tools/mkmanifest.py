#!/usr/bin/env python3
"""Regenerates MANIFEST.json from bin/config.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
import config
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = getattr(config, "NOT_APPLICABLE", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.PROPS:
        s = config.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "technique": s.get("technique", "property-based testing: generated inputs and operation sequences against a reference oracle, with shrinking"),
                       "level": "exploration", "level_note": s.get("note", "random structured generation; targets: " + ", ".join(t["name"] for t in s["targets"]))})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "mkdir -p evidence .build", "checks": checks, "not_applicable": na,
           "notes": "bin/check.py builds HiOp from /repo and the harness of the property, runs its targets and writes evidence; DESIGN.md describes each check"},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
