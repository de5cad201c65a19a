#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS, TECHNIQUE, NOTE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
checks = []; na = []
for p in props:
    i = p["id"]
    if i not in CHECKS: na.append(dict(property=i, reason="no check built yet")); continue
    cfgs = sorted({r["config"] for r in CHECKS[i]["runs"]})
    checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
        technique=TECHNIQUE.get(i, "property-based testing against a reference model"), level="exploration",
        level_note=NOTE.get(i, "Generated-input search, not exhaustive outside the enumerated blocks. ") + " Runs the library built from /repo in configurations: %s, under ASan and UBSan. Trusts the reference model in /verif/lib and the compiler." % ", ".join(cfgs)))
m = dict(version=1, setup_cmd="python3 run.py selfcheck", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "missing")
