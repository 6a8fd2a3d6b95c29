"""Small schemas for MCData, and all the trees TLC finds presented to the real code."""
import json
import os
import random

import ygen
from ygen import gen_value, unambiguous
from ddrive import CT, bad_scalar, err, outcome, rooted, untag
from values import proj
from zmodel import unjson

OPTS = {
    "syntax": dict(choice=0.4, mand=0.35, when=0.15, gwhen=0.3, default=0.3, state=0.25, card=0.3),
    "semantics": dict(leafref=0.2, must=0.3, unique=0.7, card=0.5, when=0.05, mand=0.15, default=0.35, choice=0.1, state=0.15),
    "defaults": dict(default=0.7, when=0.2, gwhen=0.3, choice=0.35, mand=0.1, state=0.25, card=0.1),
}
TYPES = ["string", "int8", "boolean", "enumeration", "empty", "union", "identityref"]


def ascii_(v):
    return json.dumps(v).isascii() and "\\" not in json.dumps(v)


def pools(rng, s, bad):
    res = {}

    def pool(i):
        n = s[i]
        if i in res or n["k"] not in ("leaf", "leaf-list"):
            return res.setdefault(i, [["o", [["x", ["i", 1]]]]] if n["k"] == "anydata" else [])
        ty = n["ty"]
        if ty["b"] == "leafref":
            res[i] = list(pool(ty["tgt"]))
            return res[i]
        vs = []
        for _ in range(12):
            v = gen_value(rng, ty)
            if v is not None and unambiguous(ty, v) and v not in vs and ascii_(v) and len(vs) < 2:
                vs.append(v)
        if n["df"] and rng.random() < 0.5 and n["df"][0] not in vs and ascii_(n["df"][0]):
            vs = vs[:1] + [n["df"][0]]
        if bad and rng.random() < 0.3:
            v = bad_scalar(rng, ty, False)
            if v and ascii_(v):
                vs = vs[:1] + [v]
        res[i] = vs
        return vs
    for i in range(1, len(s.nodes)):
        pool(i)
    return [res[i] for i in range(1, len(s.nodes))]


def gen(seed, kind, nodes):
    """A small schema, its model and data model."""
    rng = random.Random(seed)
    while True:
        o = dict(OPTS[kind], max_depth=3, max_kids=4, nodes=nodes, types=TYPES, anydata=0.02)
        if rng.random() < 0.4:
            o.update(when=0, must=0)
        if rng.random() < 0.15:
            o["status"] = 0.15
        s = ygen.gen_schema(rng, **o)
        d = [n for n in s.nodes[1:] if n["k"] not in ("choice", "case", "root")]
        if not 3 <= len(d) <= nodes + 2:
            continue
        cond = any(n["wh"] or n["whp"] or n["mu"] for n in s.nodes[1:])
        ps = pools(rng, s, not cond)
        if any(n["k"] in ("leaf", "leaf-list") and not p for n, p in zip(s.nodes[1:], ps)):
            continue
        return s, ps


def count(s, ps, size, ln):
    """How many trees of each size (approximately: entries as ordered)."""
    def conv(a, b):
        r = [0] * (size + 1)
        for i, x in enumerate(a):
            if x:
                for j, y in enumerate(b):
                    if i + j <= size:
                        r[i + j] += x * y
        return r

    def obj(i):
        r = [1] + [0] * size
        for c in s.data_kids(i):
            v = val(c)
            r = conv(r, [1] + v[:size])
        return r

    def val(c):
        k, p = s[c]["k"], ps[c - 1]
        one = obj(c) if k in ("container", "list") else [len(p)] + [0] * size
        if k in ("container", "leaf", "anydata"):
            return one
        tot, cur = [0] * (size + 1), one
        for n in range(ln):
            tot = [a + b for a, b in zip(tot, cur)]
            cur = conv([0] + cur[:size], one)
        return tot
    return obj(1)


def models(seed, kind, n, limit, nodes):
    res = []
    for k in range(n):
        sd = f"{seed}/{kind}/{k}"
        s, ps = gen(sd, kind, nodes)
        size, ln = 0, 2
        while size < 12 and sum(count(s, ps, size + 1, ln)) <= limit:
            size += 1
        res.append({"schema": s.to_tla(), "idents": [list(x) for x in s.idents], "pool": ps,
                    "size": size, "len": ln, "seed": sd, "nodes": nodes, "kind": kind})
    return res


def replay(rng, payload):
    """Present trees with their violations and completions to the real code."""
    bad, n = [], 0
    dms = {}
    for st in payload:
        md = st["model"]
        if md["seed"] not in dms:
            s, _ = gen(md["seed"], md["kind"], md["nodes"])
            dms[md["seed"]] = (s, s.load())
        s, dm = dms[md["seed"]]
        t = unjson(st["t"])
        inst = rooted(dm, s, ygen.untrace(t))

        def fail(what, **kw):
            bad.append({"what": what, "tree": t, "schema": s.yang(), **kw})
        for c, ct in enumerate(("config", "nonconfig", "all")):
            syn = [[x[0], x[1], list(x[2])] for x in st["syn"][c]]
            sem = [[x[0], x[1], list(x[2])] for x in st["sem"]]
            for scope, exp in (("syntax", syn), ("semantics", sem), ("all", syn + sem)):
                if scope not in payload[0]["scopes"]:
                    continue
                o = outcome(inst, scope, ct)
                n += 1
                if o[0] == "ok":
                    if exp:
                        fail("accepted", scope=scope, ct=ct, violations=exp)
                    continue
                if o[2] in ("config member-not-allowed", "nonconfig member-not-allowed"):
                    o[2] = "member-not-allowed"
                if o[1:] not in exp:
                    fail("wrong error" if exp else "rejected", scope=scope, ct=ct, got=o, violations=exp)
            # (what is completed beside nodes that must not be there is open)
            if "defaults" in payload[0]["scopes"] and not any(x[1] == "member-not-allowed" for x in st["syn"][2]):
                exp = unjson(st["co"][c])
                n += 1
                try:
                    got = proj(inst.add_defaults(CT[ct]).value)
                    tagged = proj(untag(inst.add_defaults(CT[ct], tag=True).value, [], []))
                except Exception as e:
                    got = tagged = err(e)
                if got != exp or tagged != exp:
                    fail("defaults", ct=ct, got=got, tagged=tagged, exp=exp)
        if proj(inst.value) != t:
            fail("changed", after=proj(inst.value))
    return n, bad[:20]


def check(ctx, kind, scopes):
    ms = models(f"{ctx.prop}/{ctx.seed}", kind, ctx.n(16, 64), ctx.n(500, 3000), 7)
    f = os.path.join(ctx.scratch, "small.ndjson")
    with open(f, "w") as h:
        for m in ms:
            h.write(json.dumps(m) + "\n")
    out = ctx.model_check("MCData", "MCData.cfg", env={"MODEL": f})
    sts = []
    for line in out.splitlines():
        if line.startswith('"@@ST '):
            st = json.loads(json.loads(line)[5:])
            st["model"] = {k: ms[st["m"] - 1][k] for k in ("seed", "nodes", "kind")}
            st["scopes"] = scopes
            sts.append(st)
    from core import MachineryError, NCPU
    if len(sts) < 100:
        raise MachineryError("no trees")
    sts.sort(key=lambda s: (s["m"], json.dumps(s["t"])))
    n = 0
    for k, bad in ctx.drive_parts("smalldata", "replay", [sts[i::NCPU] for i in range(NCPU)]):
        n += k
        for b in bad:
            ctx.violation("small tree: " + b["what"], b)
    ctx.add(small_trees=len(sts), small_tree_checks=n, small_schemas=len(ms))
