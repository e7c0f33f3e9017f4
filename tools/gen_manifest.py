#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the check registry."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
import registry

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p)
    if c:
        checks.append({
            "property": p,
            "quick_cmd": "python3 checks/run.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % p,
            "technique": c["technique"],
            "level": "other",
            "level_note": c["rule"],
            "evidence_file": "evidence/%s.json" % p,
        })
    else:
        na.append({"property": p, "reason": registry.NOT_APPLICABLE[p]})
m = {
    "version": 1,
    "setup_cmd": "python3 analysis/build.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Static analysis over compiler MIR facts extracted from /repo's working tree on every run; no code of /repo is executed.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
