#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | caught by | needs |\n|---|---|---|")
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    print("| %s | %s | %s |" % (i, m["property"], m["needs"]))
