#!/usr/bin/env python3
"""Summary of the replay files of a check: tools/viols.py C10 [n]"""
import collections, glob, json, sys, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence", "replay", sys.argv[1])
n = int(sys.argv[2]) if len(sys.argv) > 2 else 8
for p in sorted(glob.glob(d + "/*.json"))[:n]:
    x = json.load(open(p))
    e = x.get("event") or {}
    print("==", x["clause"][:int(os.environ.get("W", "600"))])
    for k, v in e.items():
        if k not in ("schema", "x", "g", "tree") : print("    ", k, "=", json.dumps(v)[:400])
    if not e or x.get("detail"): print(str(x.get("detail"))[:int(os.environ.get("D", "800"))])
