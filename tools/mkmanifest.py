#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from cvf/props.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, H)
from cvf import props as P
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in P.PROPS: continue
    i = P.PROPS[p]
    checks.append(dict(property=p, quick_cmd="python3-vt check.py %s quick" % p, thorough_cmd="python3-vt check.py %s thorough" % p,
        technique="contract-based deductive verification of the C functions extracted from /repo on every run (cvf: symbolic execution against function contracts and loop invariants, obligations discharged by z3); failing inputs searched on the real code",
        level=i["level"], level_note=i["note"], evidence_file="evidence/%s.json" % p))
na = [dict(property=p, reason=P.NA.get(p, "not built yet")) for p in ids if p not in P.PROPS]
json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
               notes="DESIGN.md says what each check decides and how; known_findings.txt lists the defects found and repaired in /repo."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
