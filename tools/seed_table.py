#!/usr/bin/env python3
"""prints the table of planted bugs in DESIGN.md"""
import collections
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for i in sorted(os.listdir(HERE + "/seeded")):
    d[json.load(open(HERE + "/seeded/%s/meta.json" % i))["property"]].append(i)
for k in sorted(d):
    print("| %s | %s |" % (k, ", ".join(d[k])))
