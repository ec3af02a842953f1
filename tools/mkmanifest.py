#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed checks are those with a script in checks/."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
from importlib import util
spec = util.spec_from_file_location("claims", os.path.join(R, "tools/claims.py")); m = util.module_from_spec(spec); spec.loader.exec_module(m)
checks, na = [], []
for i in ids:
    f = "checks/%s.py" % i.lower()
    if i in m.CLAIMS and os.path.exists(os.path.join(R, f)):
        t, note = m.CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="python3 " + f, thorough_cmd="VERIF_TIER=thorough python3 " + f, evidence_file="evidence/%s.json" % i,
                           technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=m.NOT.get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="true", hooks=m.HOOKS, checks=checks, not_applicable=na, notes=m.NOTES), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
