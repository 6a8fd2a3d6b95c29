"""Small schemas for MCCodec, and all the documents TLC finds presented to the real library."""
import json
import os
import random
import xml.etree.ElementTree as ET

from cddrive import CRec, Doc, fail, jt, xparse
from values import proj
from yangson.instance import OutputFilter
from yangson.xmlparser import XMLParser
from ygen import gen_value
from zmodel import unjson

TYPES = ["string", "int8", "uint64", "boolean", "enumeration", "empty", "union", "decimal64", "bits", "binary", "identityref"]


def gen(seed, kind, nodes):
    """A small schema with pools of values, names and metadata."""
    rng = random.Random(seed)
    while True:
        r = CRec(rng, dict(nodes=nodes, max_depth=3, max_kids=3, types=TYPES, choice=0.08, default=0.1, state=0.1, when=0, must=0,
                           anydata=0.03 if kind == "json" else 0), "small")
        s = r.s
        d = [n for n in s.nodes[2:] if n["k"] not in ("choice", "case")]
        if not 3 <= len(d) <= nodes + 1 or any(n["ty"] and n["ty"]["b"] == "leafref" for n in d):
            continue
        doc = Doc(rng, r, 0)
        wrong = kind == "json"
        names, pools = [], []
        for i in range(1, len(s.nodes)):
            n, p, ns = s[i], [], []
            if i > 1 and s.is_data(i):
                ns = [s.iname(i)]
                if wrong and rng.random() < 0.25:
                    ns.append(rng.choice([f"{n['md']}:{n['nm']}", n["nm"], f"m9:{n['nm']}", f"{n['nm']}:{n['nm']}"]))
            if n["k"] in ("leaf", "leaf-list"):
                for _ in range(8):
                    v = gen_value(rng, n["ty"])
                    x = jt(doc.lex(v, n["ty"])) if v is not None else None
                    if x and x not in p and len(p) < 2 and json.dumps(x).isascii() and "\\" not in json.dumps(x):
                        p.append(x)
                for _ in range(4):
                    x = jt(doc.junk())
                    if wrong and x[0] in ("str", "num", "bool", "null") and x not in p and len(p) < 3:
                        p.append(x)
                if not p:
                    break
            elif n["k"] == "anydata":
                p = [jt({"a:b": [1, {"c": True}]})]
            names.append(list(dict.fromkeys(ns)))
            pools.append(p)
        if len(pools) < len(s.nodes) - 1:
            continue
        metas = []
        if kind != "xml" and rng.random() < 0.6:
            for _ in range(rng.choice([1, 2])):
                doc.wild = 0.3 if wrong and rng.random() < 0.4 else 0
                x = jt(doc.meta())
                if json.dumps(x).isascii() and "\\" not in json.dumps(x) and "flt" not in json.dumps(x):
                    metas.append(x)
            if rng.random() < 0.5:
                metas.append(["arr", [rng.choice(metas + [["null"]]) for _ in range(rng.choice([1, 2]))] if metas else []])
        foreign = rng.sample(["zz", "m1:zz", "m9:zz", ":", "m1:"], 1) if wrong else []
        load = r.ev[0]
        return r, {"schema": load["schema"], "annots": load["annots"], "names": names, "pool": pools, "foreign": foreign, "metas": metas,
                   "wrong": wrong, "seed": seed, "kind": kind, "nodes": nodes}


def estimate(md, size):
    """About how many documents of up to size steps there are."""
    s = md["schema"]
    w = len(md["foreign"]) + len(md["metas"]) * 3
    for i, n in enumerate(s):
        if n["k"] in ("leaf", "leaf-list", "anydata", "container", "list"):
            w += max(1, len(md["names"][i])) * (max(1, len(md["pool"][i])) if n["k"] == "leaf" else 3 if md["wrong"] else 1)
            if n["k"] in ("leaf-list", "list"):
                w += max(1, len(md["pool"][i]))
    tot, cur = 1, 1
    for i in range(size):
        cur = cur * w // (i + 1)
        tot += cur
    return tot


def models(seed, kind, n, limit, nodes):
    res = []
    for k in range(n):
        _, md = gen(f"{seed}/{kind}/{k}", kind, nodes)
        size = 1
        while size < (8 if kind == "json" else 6) and estimate(md, size + 1) <= limit:
            size += 1
        md["size"] = size
        res.append(md)
    return res


def unjt(x):
    """Python JSON value of an emitted document."""
    t = x[0]
    if t == "obj":
        return {k: unjt(v) for k, v in (x[1].items() if isinstance(x[1], dict) else [])}
    if t == "arr":
        return [unjt(v) for v in x[1]]
    return {"str": lambda: x[1], "num": lambda: int(x[1]), "bool": lambda: x[1] == "true", "null": lambda: None}[t]()


def same(a, b):
    """JSON values with different kinds of numbers and booleans kept apart."""
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def xnorm(x, ids):
    tx = x["tx"]
    if (x["ns"], x["nm"]) in ids and ":" in tx and "env" in x:
        p, _, q = tx.partition(":")
        tx = dict(x["env"]).get(p, "?") + ":" + q
    ks = [xnorm(k, ids) for k in x["ks"]]
    return [x["ns"], x["nm"], tx, sorted(ks, key=lambda k: (k[0], k[1]))]


class OneNo(OutputFilter):
    def __init__(self, pos, hook):
        self.pos, self.hook = pos, hook

    def ask(self, hook, node):
        return not (hook == self.hook and [k + 1 if isinstance(k, int) else k for k in node.path] == self.pos)

    def begin_member(self, parent, node, attributes):
        return self.ask("bm", node)

    def end_member(self, parent, node, attributes):
        return self.ask("em", node)

    def begin_element(self, parent, node, attributes):
        return self.ask("be", node)

    def end_element(self, parent, node, attributes):
        return self.ask("ee", node)


def stripped(v):
    """Value without metadata and empty sequences (which XML cannot have)."""
    if v[0] == "o":
        return ["o", [[k, stripped(x)] for k, x in v[1] if k[0] != "@" and x != ["a", []]]]
    return ["a", [stripped(x) for x in v[1]]] if v[0] == "a" else v


def replay(rng, payload):
    bad, n = [], 0
    recs = {}
    for st in payload["states"]:
        md = payload["models"][st["m"] - 1]
        if md["seed"] not in recs:
            recs[md["seed"]] = gen(md["seed"], md["kind"], md["nodes"])[0]
        r = recs[md["seed"]]
        ids = {(x["md"], x["nm"]) for x in md["schema"] if x["k"] in ("leaf", "leaf-list") and "identityref" in json.dumps(x["et"])}
        d = unjt(st["j"])

        def complain(what, **kw):
            bad.append({"what": what, "document": d, "schema": r.s.yang(), **kw})
        n += 1
        try:
            root = r.dm.from_raw(d)
        except Exception as e:
            o = fail(e)
            if not o[3] or not any(o[1] == x[0].lstrip("?") and ("?" in (x[1], x[2]) or o[2] in x[1:]) for x in st["es"]):
                complain("refused" if not st["es"] else "wrong error", got=o, errors=st["es"])
            continue
        if any(x[0][0] != "?" for x in st["es"]):
            complain("accepted", errors=st["es"])
        if st["es"]:
            continue
        v = proj(root.value)
        if v != unjson(st["v"]):
            complain("value", got=v, exp=unjson(st["v"]))
            continue

        def guarded(what, f):
            try:
                return f()
            except Exception as e:
                complain(what + " failed", error=f"{type(e).__name__}: {e}")
        got = guarded("raw_value()", lambda: json.loads(json.dumps(root.raw_value())))
        if got is not None and not same(got, unjt(st["enc"])):
            complain("raw_value()", got=got, exp=unjt(st["enc"]))
        if st["x"]:
            el = guarded("to_xml()", root.to_xml)
            text = ET.tostring(el if el is not None else ET.Element("content-data")).decode()
            gx, ex = xnorm(xparse(text), ids), xnorm(st["x"], ids)
            n += 1
            if gx[3] != ex[3]:
                complain("to_xml()", got=gx[3], exp=ex[3])
            back = guarded("from_xml()", lambda: r.dm.from_xml(XMLParser(text).root))
            if back is not None and st["xr"] and stripped(proj(back.value)) != stripped(v):
                complain("from_xml(to_xml())", got=proj(back.value), exp=v)
        for p, h, enc in st["no"]:
            n += 1
            got = guarded("filtered raw_value()", lambda: json.loads(json.dumps(root.raw_value(OneNo(p, h)))))
            if got is not None and not same(got, unjt(enc)):
                complain("filtered raw_value()", hook=h, at=p, got=got, exp=unjt(enc))
        if proj(root.value) != v:
            complain("changed by encoding", got=proj(root.value), exp=v)
    return n, bad[:20]


def check(ctx, kind):
    """kind: json (wrong documents too), xml, filter"""
    from core import MachineryError, NCPU
    ms = models(f"{ctx.prop}/{ctx.seed}", kind, ctx.n(8, 24), ctx.n(30000 if kind == "json" else 10000, 150000), 6)
    f = os.path.join(ctx.scratch, "smallcodec.ndjson")
    with open(f, "w") as h:
        for m in ms:
            h.write(json.dumps(m) + "\n")
    out = ctx.model_check("MCCodec", "MCCodec.cfg", env={"MODEL": f})
    sts = []
    for line in out.splitlines():
        if line.startswith('"@@ST '):
            sts.append(json.loads(json.loads(line)[5:]))
    if len(sts) < 100:
        raise MachineryError("no documents")
    sts.sort(key=lambda s: (s["m"], json.dumps(s["j"], sort_keys=True)))
    for s in sts:
        s["no"].sort(key=json.dumps)
    n = 0
    for k, bad in ctx.drive_parts("smallcodec", "replay", [{"models": ms, "states": sts[i::NCPU]} for i in range(NCPU)]):
        n += k
        for b in bad:
            ctx.violation("small document: " + b["what"], b)
    ctx.add(small_documents=len(sts), small_documents_wrong=sum(bool(s["es"]) for s in sts), small_document_checks=n)
