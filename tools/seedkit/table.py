#!/usr/bin/env python3
"""print the table of planted changes for DESIGN.md"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "seeded")
print("| change | property | needs | breaks |\n|---|---|---|---|")
for i in sorted(os.listdir(V)):
    m = json.load(open(os.path.join(V, i, "meta.json")))
    print("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"]))
