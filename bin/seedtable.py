#!/usr/bin/env python3
"""Prints the planted-bug table of DESIGN.md (development helper; no check uses it)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    print("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"]))
