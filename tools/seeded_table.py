#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json and seeded_results.txt (id, check, CAUGHT/MISSED)."""
import json, glob, os, re
V = "/verif"; res = {}
p = V + "/tools/seeded_results.txt"
if os.path.exists(p):
    for l in open(p):
        a = l.split()
        if len(a) >= 3 and a[2] in ("CAUGHT", "MISSED"): res[a[0]] = a[2]
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"].replace("|", "/"), {"CAUGHT": "caught by " + d["property"], "MISSED": "not caught"}.get(res.get(i), "?")))
t = "## Planted bugs\n\nEach builds, passes the stable tests and has a demonstration; \"caught\" means that the property's quick check reports a\nviolation with the patch applied.\n\n| change | property | what it breaks | result |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(## Planted bugs\n.*)\Z", "", s, flags=re.S).rstrip() + "\n\n" + t
open(V + "/DESIGN.md", "w").write(s)
