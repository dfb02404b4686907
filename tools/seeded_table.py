#!/usr/bin/env python3
"""Prints the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| bug | property | needs |")
print("|---|---|---|")
for d in sorted(os.listdir(here)):
    m = json.load(open(os.path.join(here, d, "meta.json")))
    print("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").rstrip(".")))
