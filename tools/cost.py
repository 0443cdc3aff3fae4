#!/usr/bin/env python3
"""Writes cost.json (seconds per quick check) from the log of a vcheck: cost.py LOG"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
last, t, c = "", 0, {}
for l in open(sys.argv[1]):
    m = re.match(r"\[(\d+) s\] (\S+)", l)
    if m:
        n = int(m[1])
        if last.startswith("clean:"): c[last[6:]] = n - t
        last, t = m[2], n
json.dump(c, open(V + "/tools/cost.json", "w"), indent=0, sort_keys=True)
