#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | caught by | breaks |\n|-----|-----------|--------|")
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    print("| %s | %s | %s |" % (os.path.basename(d), m["property"],
                                m["what_it_breaks"]))
