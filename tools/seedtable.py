#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json,glob,os
print("| bug | property and check that catches it | needs | breaks |\n|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(os.path.dirname(__file__),"../seeded/*/meta.json"))):
    d=json.load(open(m)); f=lambda s:" ".join(s.split()).replace("|","/")
    print("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(m)),d["property"],f(d["needs"]),f(d["what_it_breaks"])))
