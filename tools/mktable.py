#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | caught by | needs |\n|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = " ".join(m["needs"].split()).replace("|", "/")
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], n if len(n) < 160 else n[:157] + "..."))
