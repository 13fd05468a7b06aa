#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os
from registry import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="env VERIF_TIER=thorough python3 check.py %s" % i, evidence_file="evidence/%s.json" % i,
                       technique=p["technique"], level=p.get("level", "exploration"), level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 setup_check.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
         notes="No hooks: every check drives the public API built from /repo's working tree. Genuine defects found were repaired by the 'fix:' commits listed in known_findings.txt.")
for i in ids:
    assert i in PROPS or i in NOT_APPLICABLE, i
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
