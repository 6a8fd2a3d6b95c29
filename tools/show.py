#!/usr/bin/env python3
"""Readable form of a replay file: tools/show.py C05 0 [path prefix filter]"""
import json, os, sys
d = os.environ.get("D") or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence", "replay", sys.argv[1])
x = json.load(open(os.path.join(d, f"{int(sys.argv[2]):03d}.json")))
print("==", x["clause"][:1500])
for e in x.get("context") or []:
    if e["op"] == "load":
        S = e["schema"]
        def show(i, ind):
            n = S[i - 1]
            a = {k: v for k, v in n.items() if k not in ("k", "in", "nm", "md", "p", "c", "dp", "dk", "ty") and
                 v not in (0, [], False, "", -1, "current") and not (k == "cfg" and v)}
            if not n["cfg"]: a["cfg"] = False
            if n.get("ty"): a["ty"] = {k: v for k, v in n["ty"].items() if v not in ([], None, "")}
            print(" " * ind, i, n["k"], n["md"] + ":" + n["nm"], json.dumps(a))
            for c in n["c"]: show(c, ind + 2)
        show(1, 0)
    else:
        def sh(v):
            if v[0] == "o": return {k: sh(w) for k, w in v[1]}
            if v[0] == "a": return [sh(w) for w in v[1]]
            return "~" + json.dumps(v)
        try: print(json.dumps(sh(e["tree"]), indent=1))
        except Exception: print(json.dumps(e["tree"]))
        print("rt", e.get("rt"))
e = x.get("event") or {}
print({k: v for k, v in e.items()})
if x.get("detail"): print(x["detail"][-3000:])
