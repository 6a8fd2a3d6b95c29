#!/usr/bin/env python3
"""Short listing of replays: vt.py GLOB_or_ID [per-clause count] [fields]"""
import sys,json,glob,collections,os
c=collections.Counter(); a=sys.argv[1]; n=int(sys.argv[2]) if len(sys.argv)>2 else 2
skip={"schema","g","tree","text","l1","idents","ctx"}
for p in sorted(glob.glob(a if "/" in a else f'/verif/evidence/replay/{a}/*.json')):
    x=json.load(open(p)); e=x.get('event') or {}; k=x['clause'].split(": spec")[0]; c[k]+=1
    if c[k]>n: continue
    print("==",x['clause'][:400])
    for f,v in e.items():
        if f not in skip: print("    ",f,"=",json.dumps(v)[:int(os.environ.get("W","300"))])
    if x.get('context') and os.environ.get("CTX"): print(str(x['context'])[:600])
    if x.get('detail'): print(str(x['detail'])[:700])
print(c)
