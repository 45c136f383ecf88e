#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    s = CHECKS.get(p["id"])
    if not s:
        na.append(dict(property=p["id"], reason="no check has been built for this property yet"))
        continue
    checks.append(dict(
        property=p["id"], quick_cmd="python3 run_check.py %s --tier quick" % p["id"],
        thorough_cmd="python3 run_check.py %s --tier thorough" % p["id"],
        technique=s.get("technique", "property-based testing with shrinking (random + libFuzzer) against a reference model"),
        level="exploration",
        level_note=s.get("level_note", "Sampled, not exhaustive: holds on every generated case of the run; trusts the reference "
                         "model in harness/ and the compiler, Eigen, PCL and nanoflann of the sandbox." +
                         (" ROS is replaced by the in-process stand-ins in stubs/." if s.get("ros") else ""))))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: the harnesses use the public API of /repo only. Known and fixed findings: known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
