"""The small model of MCZipper: schema, pools of values, and the replay of
every transition TLC finds on the real code."""
import json
import os
import random

import ygen
from values import proj, cook
from zdrive import obs


def sch_nav():
    s = ygen.Schema()
    i8 = {"b": "int8", "rg": []}
    c = s.add(1, "container", "c", "m1")
    s.add(c, "leaf", "a", "m1", ty=i8)
    s.add(c, "leaf-list", "ll", "m1", ty=i8)
    l = s.add(c, "list", "l", "m1")
    k = s.add(l, "leaf", "k", "m1", ty=i8)
    s[l]["ky"] = [k]
    s.add(l, "leaf", "a", "m2", ty=i8)
    s.add(1, "leaf", "a", "m2", ty=i8)
    return s


I1, I2 = ["i", 1], ["i", 2]


def O(**kw):
    return ["o", [[k.replace("__", ":"), v] for k, v in sorted(kw.items())]]


def A(*es):
    return ["a", list(es)]


def model(big):
    s = sch_nav()
    names = {(n["nm"], n["md"], n["p"]): n["id"] for n in s.nodes[1:]}
    mv = [[] for _ in s.nodes[1:]]
    ev = [[] for _ in s.nodes[1:]]
    c = names["c", "m1", 1]
    l = names["l", "m1", c]
    e1, e2, e3 = O(k=I1), O(k=I2, m2__a=I1), O(k=I1, m2__a=I2)
    mv[names["a", "m1", c] - 1] = [I1, I2]
    mv[names["ll", "m1", c] - 1] = [A(), A(I1), A(I2, I1)]
    mv[l - 1] = [A(e1), A(e2, e3)] + ([A()] if big else [])
    mv[names["k", "m1", l] - 1] = [I1, I2] if big else [I2]
    mv[names["a", "m2", l] - 1] = [I1]
    mv[names["a", "m2", 1] - 1] = [I1]
    mv[c - 1] = [O(), O(a=I1, l=A(e2)), O(ll=A(I1), l=A(e1))]
    mv[0] = [O(), O(m1__c=O(a=I1, ll=A(I2)))]
    ev[names["ll", "m1", c] - 1] = [I1, I2]
    ev[l - 1] = [e1, e2] + ([e3] if big else [])
    init = [O(), O(m1__c=O(a=I2, l=A(e1, e2), ll=A(I1, I2)), m2__a=I1)]
    return s, {"schema": s.to_tla(), "mv": mv, "ev": ev, "init": init,
               "maxlen": 3 if big else 2, "merge": 1, "emit": 12 if big else 40}


def unjson(v):
    """ToJson form of a TLA+ value -> trace form."""
    if v[0] == "o":
        return ["o", sorted([k, unjson(x)] for k, x in (v[1].items() if isinstance(v[1], dict) else []))]
    if v[0] == "a":
        return ["a", [unjson(x) for x in v[1]]]
    return v


def transitions(out):
    for line in out.splitlines():
        if line.startswith('"@@TR '):
            yield json.loads(json.loads(line)[5:])


def reach(rng, dm, sch, root, path):
    """A node at `path` of tree `root`, reached by a random route."""
    inst = dm.from_raw(ygen.raw_tree(sch, 1, ygen.untrace(root)))
    for p in path:
        if isinstance(p, str):
            names = [m for m in inst.value if m != p]
            if names and rng.random() < 0.4:
                inst = inst[rng.choice(names)].sibling(p)
            else:
                inst = inst[p]
        else:
            n = len(inst.value)
            q = rng.choice([p, rng.randint(1, n)])
            inst = inst[rng.choice([q - 1, q - 1 - n])]
            while q < p:
                inst, q = inst.next(), q + 1
            while q > p:
                inst, q = inst.previous(), q - 1
    return inst


def replay(rng, payload):
    """Perform transitions on the real code; return (count, failures)."""
    s = sch_nav()
    dm = s.load()
    bad = []
    n = 0
    for t in payload:
        n += 1
        root, path = unjson(t["z"][0]), t["z"][1]
        node = reach(rng, dm, s, root, path)
        before = obs(node)
        exp0 = {"val": at(root, path), "path": path, "top": root}
        if any(before[k] != exp0[k] for k in exp0):
            bad.append({"what": "position", "t": t, "obs": before})
            continue
        op, arg = t["op"], t["arg"]
        sid = 1
        for p in path:
            if isinstance(p, str):
                sid = s.kid(sid, p)
        raw = rng.random() < 0.5

        def val(x, i):
            x = unjson(x)
            return ygen.raw_tree(s, i, ygen.untrace(x)) if raw else cook(x)
        try:
            if op == "get" or op == "ent":
                r = node[arg]
            elif op in ("delm", "dele"):
                r = node.delete_item(arg)
            elif op == "put":
                c = [c for c in s.data_kids(sid) if arg[0] in (s.iname(c), s[c]["md"] + ":" + s[c]["nm"])][0]
                r = node.put_member(arg[0], val(arg[1], c), raw=raw)
            elif op == "up":
                r = node.up()
            elif op == "top":
                r = node.top()
            elif op == "sib":
                r = node.sibling(arg)
            elif op == "next":
                r = node.next()
            elif op == "prev":
                r = node.previous()
            else:
                f = {"insb": "insert_before", "insa": "insert_after", "upd": "update",
                     "merge": "merge"}[op]
                r = getattr(node, f)(val(arg, sid), raw=raw)
            o = obs(r)
            got = ["node", o["top"], o["path"]]
            ok = t["res"][0] == "node" and got == ["node", unjson(t["res"][1]), t["res"][2]] \
                and o["val"] == at(o["top"], o["path"])
        except Exception as e:
            got = ["err", type(e).__name__]
            ok = t["res"][0] == "err" and got[1] in t["res"][1]
        if not ok:
            bad.append({"what": "transition", "t": t, "got": got})
        elif obs(node) != before:
            bad.append({"what": "persistence", "t": t, "after": obs(node)})
    return n, bad


def at(v, path):
    for p in path:
        v = dict((a, b) for a, b in v[1])[p] if v[0] == "o" else v[1][p - 1]
    return v


def check(ctx, ops=None, want=lambda b: True):
    s, m = model(ctx.thorough)
    f = os.path.join(ctx.scratch, "model.json")
    with open(f, "w") as h:
        h.write(json.dumps(m) + "\n")
    out = ctx.model_check("MCZipper", "MCZipper.cfg", env={"MODEL": f},
                          args=("-seed", str(ctx.seed)))
    ts = list(transitions(out))
    if ops:
        ts = [t for t in ts if t["op"] in ops]
    if not ts:
        from core import MachineryError
        raise MachineryError("no transitions")
    lim = ctx.n(12000, 150000)
    if len(ts) > lim:
        ts = ctx.rng("tr").sample(ts, lim)
    k = 8
    res = ctx.drive_parts("zmodel", "replay", [ts[i::k] for i in range(k)])
    nn = 0
    for n, bad in res:
        nn += n
        for b in bad:
            if want(b):
                ctx.violation("replay of a specification transition: " + b["what"], b)
    ctx.add(replayed_transitions=nn)
