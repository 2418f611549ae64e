#!/usr/bin/env python3
"""Print the table of the planted bugs for DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    o.append((m["property"], i, m["needs"]))
print("| check | planted bug | needs |\n|---|---|---|")
for p, i, n in sorted(o):
    print("| %s | %s | %s |" % (p, i, n))
