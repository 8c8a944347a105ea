#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (section 6) from seeded/*/meta.json."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
rows = []
for d in sorted(os.listdir(R)):
    m = json.load(open(os.path.join(R, d, "meta.json")))
    rows.append((m["property"], d, m["needs"]))
for p, d, n in sorted(rows):
    print("| %s | %s | %s |" % (p, d, n.replace("|", "/").replace("\n", " ")))
