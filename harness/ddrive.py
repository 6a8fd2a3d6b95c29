"""Recorded XPath evaluations, default completions and validations
(events of spec/TraceData.tla)."""
import copy
import json
from decimal import Decimal
from fractions import Fraction
from math import copysign, isinf, isnan

import ygen
import xgen
from values import proj, cook, text as text_scalar, type_has, INTR
from ygen import emit, raw_tree
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import ValidationError, YangsonException
from yangson.instance import RootNode
from yangson.nodeset import NodeSet
from yangson.schemadata import SchemaContext
from yangson.xpathparser import XPathParser

CASE_CPU = 300
CT = {"config": ContentType.config, "nonconfig": ContentType.nonconfig, "all": ContentType.all}
SC = {"syntax": ValidationScope.syntax, "semantics": ValidationScope.semantics, "all": ValidationScope.all}


def pos(node):
    return [p if isinstance(p, str) else p + 1 for p in node.path]


def number(x):
    if isnan(x):
        return ["n", 0, 0]
    if isinf(x):
        return ["n", 1 if x > 0 else -1, 0]
    if x == 0:
        return ["n", 0, -1 if copysign(1, x) < 0 else 1]
    f = Fraction(Decimal(repr(x)))
    if abs(f.numerator) > 2 ** 31 - 1 or f.denominator > 2 ** 31 - 1:
        return ["N", repr(x)]
    return ["n", f.numerator, f.denominator]


def xvalue(v):
    if isinstance(v, NodeSet):
        return ["ns", [pos(n) for n in v]]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, (int, float)):
        return number(float(v))
    if isinstance(v, str):
        return ["s", v]
    return ["?", repr(v)]


def err(e):
    return ["err", type(e).__name__ + ": " + str(e)[:150]]


def positions(sch, t):
    """All node positions of a generator tree with schema ids."""
    res = []

    def walk(i, v, p):
        if v[0] == "a" and sch[i]["k"] != "anydata":
            for k, x in enumerate(v[1]):
                walk(i, x, p + [k + 1])
            return
        res.append((p, i, v))
        if v[0] == "o" and sch[i]["k"] != "anydata":
            for m, x in v[1].items():
                c = sch.kid(i, m)
                if c:
                    walk(c, x, p + [m])
    walk(1, t, [])
    return res


def at(t, p):
    for x in p:
        t = t[1][x] if t[0] == "o" else t[1][x - 1]
    return t


def ambiguous(t, rt):
    """Does an instance-identifier denote several (duplicate) entries?"""
    for _, steps in rt:
        v = t
        for x in steps:
            if x[0] == "m":
                v = v[1].get(x[1]) if v[0] == "o" else None
            elif v[0] != "a":
                v = None
            elif x[0] == "p":
                v = v[1][x[1] - 1] if x[1] <= len(v[1]) else None
            else:
                c = [e for e in v[1] if (e == x[1] if x[0] == "v" else
                                         e[0] == "o" and all(e[1].get(k) == y for k, y in x[1]))]
                if len(c) > 1:
                    return True
                v = c[0] if c else None
            if v is None:
                break
    return False


def goto(root, p):
    n = root
    for x in p:
        n = n[x] if isinstance(x, str) else n[x - 1]
    return n


def set_instids(rng, sch, t):
    """Give instance-identifier leaves targets; returns the routes."""
    ps = positions(sch, t)
    routes = {"/m1:none": [["m", "m1:none"]]}
    cand = []
    for p, i, v in ps:
        if not p or i == 1:
            continue
        txt, steps, ok = "", [], True
        j, x = 1, t
        for q in p:
            if isinstance(q, str):
                c = sch.kid(j, q)
                n = sch[c]
                txt += "/" + (f"{n['md']}:{n['nm']}" if sch[j]["md"] != n["md"] else n["nm"])
                steps.append(["m", q])
                x = x[1][q]
                j = c
            else:
                x = x[1][q - 1]
                if sch[j]["k"] == "list" and sch[j]["ky"]:
                    pairs = []
                    for k in sch[j]["ky"]:
                        kn = sch.iname(k)
                        kv = x[1].get(kn)
                        if kv is None or kv[0] not in ("s", "i") or \
                                kv[0] == "s" and not kv[1].isalnum() or \
                                not ygen.unambiguous_text(sch[k]["ty"], kv):
                            ok = False
                            break
                        pairs.append([kn, kv])
                    if not ok:
                        break
                    txt += "".join(f'[{kn}="{kv[1]}"]' for kn, kv in pairs)
                    steps.append(["k", pairs])
                elif sch[j]["k"] == "leaf-list" and x[0] in ("s", "i") and str(x[1]).isalnum() and \
                        ygen.unambiguous_text(sch[j]["ty"], x):
                    txt += f'[.="{x[1]}"]'
                    steps.append(["v", x])
                elif not sch[j]["cfg"] and sch[j]["k"] == "list":
                    txt += f"[{q}]"
                    steps.append(["p", q])
                else:
                    ok = False
                    break
        if ok and txt.isascii():
            cand.append((txt, steps))

    def patch(i, v):
        ty = sch[i]["ty"]
        if v[0] == "o" and sch[i]["k"] != "anydata":
            for k in list(v[1]):
                c = sch.kid(i, k)
                if c:
                    v[1][k] = patch(c, v[1][k])
            return v
        if v[0] == "a":
            new = []
            for x in v[1]:
                y = patch(i, x)
                if y not in new or sch[i]["k"] != "leaf-list":
                    new.append(y)
            v[1][:] = new
            return v
        if ty and ty["b"] == "instance-identifier" and v[0] == "r":
            if cand and rng.random() < 0.9:
                txt, steps = rng.choice(cand)
                if rng.random() < 0.15 and steps[-1][0] in ("v", "p") or \
                        rng.random() < 0.15 and len(steps) == 1:
                    pass
                routes[txt] = steps
                return ["r", txt]
            top = [c for c in sch.data_kids(1) if sch[c]["k"] == "container"]
            if top and rng.random() < 0.9:
                c = rng.choice(top)
                txt = f"/{sch[c]['md']}:{sch[c]['nm']}"
                routes[txt] = [["m", sch.iname(c)]]
                return ["r", txt]
            if cand:
                txt, steps = rng.choice(cand)
                routes[txt] = steps
                return ["r", txt]
        return v
    patch(1, t)
    return sorted([k, v] for k, v in routes.items())


def collect_vals(sch, t):
    vals = {}
    for p, i, v in positions(sch, t):
        if v[0] not in ("o", "a"):
            vals.setdefault(i, []).append(v)
    return vals


class Rec:
    def __init__(self, rng, opts, gid):
        self.rng = rng
        self.s = ygen.gen_schema(rng, **opts)
        self.dm = self.s.load()
        self.ev = []
        self.gid = gid
        self.add(op="load", schema=self.s.to_tla(), idents=[list(x) for x in self.s.idents])

    def add(self, **kw):
        self.ev.append(dict(kw, g=self.gid))

    def tree(self, **kw):
        g = ygen.InstGen(self.rng, self.s, p_opt=kw.pop("p_opt", self.rng.choice([0.3, 0.55, 0.8])),
                         max_entries=self.rng.choice([2, 3, 4]), **kw)
        t = g.tree()
        rt = set_instids(self.rng, self.s, t)
        return t, rt

    def use(self, t, rt, raw=True):
        self.add(op="tree", tree=emit(t), rt=rt)
        if raw:
            return self.dm.from_raw(raw_tree(self.s, 1, t))
        return rooted(self.dm, self.s, t)


def rooted(dm, sch, t):
    """Root node holding the cooked tree, whatever it contains."""
    v = cook_tree(dm, sch, 1, t)
    return RootNode(v, dm.schema, dm.schema_data, v.timestamp)


def cook_tree(dm, sch, i, v):
    from yangson.instvalue import ArrayValue, ObjectValue
    if v[0] == "o":
        if i and sch[i]["k"] == "anydata":
            return cook(emit(v))
        return ObjectValue({k: cook_tree(dm, sch, sch.kid(i, k) if i else 0, x) for k, x in v[1].items()})
    if v[0] == "a":
        return ArrayValue([cook_tree(dm, sch, i, x) for x in v[1]])
    if v[0] == "r":
        node = dm.get_data_node(sch_data_path(sch, i))
        return node.type.from_raw(v[1])
    return cook(v)


def sch_data_path(sch, i):
    res, prev = "", ""
    for a in sch.ancestors(i)[1:]:
        n = sch[a]
        res += "/" + (n["nm"] if n["md"] == prev else f"{n['md']}:{n['nm']}")
        prev = n["md"]
    return res


# -- C10 ----------------------------------------------------------------------
def xpath(rng, payload):
    evs = []
    for k in range(payload["schemas"]):
        r = Rec(rng, dict(leafref=0.2, instid=0.06, mand=0.05, status=rng.choice([0, 0, .06]), mods=("m1", "m2"), **payload["opts"]),
                f"{rng.random()}")
        mod = r.s.mods[-1]
        sctx = SchemaContext(r.dm.schema_data, mod, (mod, "2024-01-01"))
        for _ in range(payload["trees"]):
            t, rt = r.tree(p_opt=rng.choice([0.5, 0.75, 0.95]))
            inst = r.use(t, rt)
            ps = positions(r.s, t)
            g = xgen.XGen(rng, r.s, mod, collect_vals(r.s, t))
            for _ in range(payload["exprs"]):
                p, i, _ = rng.choice(ps)
                e = g.expr(i, rng.choice([1, 2, 2, 3, 3]))
                txt = ygen.xtext(e, r.s, mod, rng)
                try:
                    x = XPathParser(txt, sctx)
                    a = x.parse()
                    if not x.at_end():
                        raise ValueError("trailing text")
                    out = xvalue(a.evaluate(goto(inst, p)))
                except RecursionError:
                    raise
                except Exception as ex:
                    out = err(ex)
                r.add(op="xpath", x=e, n=p, out=out, text=txt)
        evs += r.ev
    return evs


def run_xpath(r, sctx, inst, e, p, mod, rng):
    txt = ygen.xtext(e, r.s, mod, rng)
    try:
        x = XPathParser(txt, sctx)
        a = x.parse()
        if not x.at_end():
            raise ValueError("trailing text")
        out = xvalue(a.evaluate(goto(inst, p)))
    except RecursionError:
        raise
    except Exception as ex:
        out = err(ex)
    r.add(op="xpath", x=e, n=p, out=out, text=txt)


def xpath_steps(rng, payload):
    """Every axis with every kind of test from every node of small documents."""
    evs = []
    for k in range(payload["schemas"]):
        r = Rec(rng, dict(leafref=0.1, mand=0, mods=("m1", "m2"), anc_names=0.5, dup_names=0.4, state=0.1,
                          max_depth=5, nodes=10, card=0), f"{rng.random()}")
        mod = "m2"
        sctx = SchemaContext(r.dm.schema_data, mod, (mod, "2024-01-01"))
        t, rt = r.tree(p_opt=0.9)
        inst = r.use(t, rt)
        ps = positions(r.s, t)
        names = sorted({(r.s[i]["nm"], r.s[i]["md"]) for i in r.s.all_data() if i != 1})
        names = sorted(rng.sample(names, min(4, len(names))))
        if rng.random() < 0.5:
            names.append((names[0][0], {"m1": "m2", "m2": "m1"}[names[0][1]]))
        deep = sorted(ps, key=lambda x: -len(x[0]))
        ctx = [ps[0]] + deep[:3] + (rng.sample(ps, 5) if len(ps) > 5 else ps)
        tests = [["*", "", ""], ["node", "", ""]] + [["name", *x] for x in names]

        def preds(ax):
            if rng.random() < 0.75:
                return []
            return [rng.choice([["num", 1, 1], ["num", 2, 1], ["fn", "last", []], ["num", 0, 1],
                                ["bin", "=", ["fn", "position", []], ["num", rng.choice([1, 2]), 1]],
                                ["bin", "<", ["fn", "position", []], ["fn", "last", []]],
                                ["path", False, [["parent", "node", "", "", []]]],
                                ["bin", "=", ["path", False, [["self", "node", "", "", []]]],
                                 ["path", False, [["following-sibling", "*", "", "", []]]]]])
                    for _ in range(rng.choice([1, 1, 2]))]
        for p, i, _ in ctx:
            for ax in xgen.AXES:
                for ts in tests:
                    e = ["path", rng.random() < 0.05, [[ax, *ts, preds(ax)]]]
                    if rng.random() < 0.25:
                        e[2].append([rng.choice(xgen.AXES), *rng.choice(tests), preds(ax)])
                    run_xpath(r, sctx, inst, e, p, mod, rng)
        evs += r.ev
    return evs


def xpath_ops(rng, payload):
    """Operators and functions over operands of all kinds."""
    evs = []
    for k in range(payload["schemas"]):
        r = Rec(rng, dict(mand=0, mods=("m1",), max_depth=3, nodes=14, state=0, card=0,
                          types=["string", "int8", "boolean", "enumeration", "decimal64", "empty", "bits", "union"]),
                f"{rng.random()}")
        sctx = SchemaContext(r.dm.schema_data, "m1", ("m1", "2024-01-01"))
        t, rt = r.tree(p_opt=0.95)
        inst = r.use(t, rt)
        N = lambda n, d=1: ["num", n, d] if n >= 0 else ["neg", ["num", -n, d]]
        D = lambda a, b: ["bin", "div", N(a), N(b)]
        S = lambda s: ["str", s]
        g = xgen.XGen(rng, r.s, "m1", collect_vals(r.s, t))
        ns = [["filt", ["path", False, [["self", "node", "", "", []]]], [["fn", "false", []]], []]]
        for i in r.s.all_data():
            if i != 1 and r.s[i]["k"] in ("leaf", "leaf-list", "list"):
                ns.append(g.abspath(i))
        ns = ns[:1] + rng.sample(ns[1:], min(6, len(ns) - 1))
        ops = [S(x) for x in ("", "a", "ab", "b", "12", " 1 ", "-0.5", "NaN", "true", "  a  b ", "1e3", "+1", ".5")] +             [N(0), N(1), N(-1), N(1, 2), N(5, 2), N(-3, 2), D(1, 0), D(-1, 0), D(0, 0), ["neg", N(0)], N(2), N(3)] +             [["fn", "true", []], ["fn", "false", []]] + ns
        strs = [o for o in ops if o[0] == "str"] + [S("abcabc"), S("1999/04/01"), S("--aaa--"), S("12345")]
        nums = [o for o in ops if o[0] in ("num", "neg", "bin")] + [S("2"), N(-42), N(100)]
        R = rng.choice
        es = [["fn", f, [o]] for f in ("boolean", "not", "number", "string", "string-length", "normalize-space",
                                       "floor", "ceiling", "round") for o in ops]
        es += [["neg", o] for o in ops] + [["fn", f, [o]] for f in ("count", "sum", "name", "local-name") for o in ns]
        for _ in range(payload["n"]):
            es.append(["bin", R(["=", "=", "!=", "<", "<=", ">", ">=", "+", "-", "*", "div", "mod", "mod", "and", "or"]),
                       R(ops), R(ops)])
        for _ in range(payload["n"] // 2):
            f = R(["concat", "starts-with", "contains", "substring-before", "substring-after", "substring",
                   "substring", "translate"])
            a = [R(strs) if rng.random() < 0.8 else R(ops)]
            if f == "substring":
                a += [R(nums) for _ in range(R([1, 2, 2]))]
            elif f == "translate":
                a += [S(R(["ab", "a", "aba", "1", "-a", ""])), S(R(["AB", "", "x", "xyz"]))]
            elif f == "concat":
                a += [R(ops) for _ in range(R([1, 2]))]
            else:
                a += [R(strs) if rng.random() < 0.4 else S(R(["a", "b", "/", "1", "", "aa", "ab"]))]
            es.append(["fn", f, a])
        ps = [p for p, i, v in positions(r.s, t)]
        for e in es:
            run_xpath(r, sctx, inst, e, R(ps), "m1", rng)
        evs += r.ev
    return evs


# -- C07 ----------------------------------------------------------------------
NCD = "ietf-netconf-with-defaults:default"


def untag(v, p, tags):
    """Tree without default annotations; positions of the annotations."""
    from yangson.instvalue import ArrayValue, ObjectValue
    if isinstance(v, ObjectValue):
        res = {}
        for k, x in v.items():
            if k == "@":
                if x == {NCD: True}:
                    tags.append(p)
                else:
                    res[k] = x
            elif k.startswith("@"):
                if x == {NCD: True}:
                    tags.append(p + [k[1:]])
                else:
                    res[k] = x
            else:
                res[k] = untag(x, p + [k], tags)
        return ObjectValue(res)
    if isinstance(v, ArrayValue):
        return ArrayValue([untag(x, p + [i + 1], tags) for i, x in enumerate(v)])
    return v


def defaults(rng, payload):
    evs = []
    for k in range(payload["schemas"]):
        o = dict(default=0.6, status=rng.choice([0, .1]), when=rng.choice([0, 0.15, 0.3]), gwhen=0.3, must=0, choice=0.25,
                 mand=rng.choice([0, 0, 0.15]), leafref=0.05)
        o.update(payload["opts"])
        r = Rec(rng, o, f"{rng.random()}")
        nomand = not any(n["mand"] or n["mn"] for n in r.s.nodes[1:])
        for _ in range(payload["trees"]):
            t, rt = r.tree()
            inst = r.use(t, rt)
            ps = [p for p, i, v in positions(r.s, t) if v[0] == "o" and r.s[i]["k"] != "anydata"]
            for n in [[]] + rng.sample(ps, min(2, len(ps))):
                ct = rng.choice(["config", "all", "nonconfig"] if nomand else ["config", "all"])
                d = dict(op="defaults", n=n, ct=ct, out=["err", ""], again=[], tagged=[], tags=[])
                try:
                    node = goto(inst, n)
                    before = proj(inst.value)
                    tags = []
                    d["tagged"] = proj(untag(node.add_defaults(CT[ct], tag=True).value, [], tags))
                    d["tags"] = tags
                    res = node.add_defaults(CT[ct])
                    d["out"] = ["ok", proj(res.value)]
                    d["again"] = proj(res.add_defaults(CT[ct]).value)
                    if n and rng.random() < 0.3 and not nomand:
                        d["ct"] = ct
                    if proj(inst.value) != before:
                        d["out"] = ["err", "receiver modified"]
                except RecursionError:
                    raise
                except Exception as ex:
                    d["out"] = err(ex)
                r.add(**d)
        evs += r.ev
    return evs


# -- C05, C06, C18 --------------------------------------------------------------
def bad_scalar(rng, ty, wild):
    b = ty["b"]
    if wild and rng.random() < 0.5:
        v = rng.choice([["i", 5], ["s", "zzz"], ["b", "true"], ["e"], ["t", ["x"]], ["t", ["i9", "m2"]],
                        ["d", 15, 1], ["x", "00"], ["i", -300], ["t", ["ib", "m1"]], ["s", ""]])
        return None if b == "leafref" else v
    if b in INTR:
        rg = ty.get("rg") or [list(INTR[b])]
        hi = min(rg[-1][1], 2 ** 31 - 2)
        lo = max(rg[0][0], -2 ** 31 + 2)
        c = [["i", hi + 1], ["i", lo - 1]] + [["i", x[1] + 1] for x in rg[:-1]]
        c = [v for v in c if not (b in ("int32", "uint32", "int64", "uint64") and not type_in_rg(rg, v) is False)]
        return rng.choice(c) if c else None
    if b == "string":
        c = [["s", x] for x in [*ygen.STRS, "z" * 12] if not ygen.type_has(ty, ["s", x])]
        return rng.choice(c) if c else None
    if b == "enumeration":
        return ["s", "zzz"]
    if b == "bits":
        return ["t", ["nobit"]]
    if b == "identityref":
        return ["t", rng.choice([["ib", "m1"], ["zz", "m1"]])]
    return None


def type_in_rg(rg, v):
    return any(x <= v[1] <= y for x, y in rg)


class Mut:
    """Random mutations of a generator tree."""

    def __init__(self, rng, rec, wild, unknown=True):
        self.rng, self.s, self.wild, self.unknown = rng, rec.s, wild, unknown
        self.g = ygen.InstGen(rng, rec.s, p_opt=0.5, max_entries=3)

    def apply(self, t):
        t = copy.deepcopy(t)
        for _ in range(self.rng.choice([1, 1, 1, 2, 3])):
            for _ in range(8):
                if self.one(t):
                    break
        return t

    def objects(self, t):
        res = []

        def walk(i, v, in_arr):
            if v[0] == "o" and self.s[i]["k"] != "anydata":
                res.append((i, v))
                for m, x in v[1].items():
                    c = self.s.kid(i, m)
                    if c:
                        walk(c, x, False)
            elif v[0] == "a":
                for x in v[1]:
                    walk(i, x, True)
        walk(1, t, False)
        return res

    def one(self, t):
        rng, s = self.rng, self.s
        objs = self.objects(t)
        if rng.random() < 0.3 and self.repeat(objs):
            return True
        i, o = rng.choice(objs)
        kids = {m: s.kid(i, m) for m in o[1]}
        known = [m for m, c in kids.items() if c]
        arrs = [m for m in known if o[1][m][0] == "a"]
        leaves = [m for m in known if s[kids[m]]["k"] == "leaf"]
        op = rng.choice(["del", "add", "add", "unknown", "bad", "dup", "shrink", "grow", "delkey", "change",
                         "change", "reorder"])
        if op == "del" and known:
            del o[1][rng.choice(known)]
            return True
        if op == "add":
            c = [x for x in s.data_kids(i) if s.iname(x) not in o[1]]
            if c:
                x = rng.choice(c)
                none = [y for y in c if s[y]["mx"] == 0]
                if none and rng.random() < 0.5:
                    x = rng.choice(none)
                v = self.g.value(x)
                if s[x]["k"] in ("list", "leaf-list") and (v is None or not v[1]):
                    v = self.g.scalar(x) if s[x]["k"] == "leaf-list" else self.g.entry(x, set())
                    v = v and ["a", [v]]
                if v is not None:
                    o[1][s.iname(x)] = v
                    return True
        if op == "unknown" and self.unknown and rng.random() < 0.5:
            o[1][rng.choice(["nonex", "m1:nonex", "m2:zz"])] = ["s", "x"]
            return True
        if op == "bad":
            c = [m for m in known if s[kids[m]]["k"] in ("leaf", "leaf-list")]
            if c:
                m = rng.choice(c)
                v = bad_scalar(rng, s[kids[m]]["ty"], self.wild)
                if v is None:
                    return False
                if o[1][m][0] == "a":
                    o[1][m][1].insert(rng.randint(0, len(o[1][m][1])), v)
                else:
                    o[1][m] = v
                return True
        if op in ("dup", "shrink", "grow", "reorder") and arrs:
            m = rng.choice(arrs)
            es = o[1][m][1]
            if op == "dup" and es:
                e = copy.deepcopy(rng.choice(es))
                if e[0] == "o" and rng.random() < 0.5:     # same key, other content
                    for k in list(e[1]):
                        if s.kid(kids[m], k) not in s[kids[m]]["ky"] and rng.random() < 0.5:
                            del e[1][k]
                es.insert(rng.randint(0, len(es)), e)
                return True
            if op == "shrink" and es:
                del es[rng.randrange(len(es))]
                return True
            if op == "grow":
                v = self.g.value(kids[m])
                if v and v[1]:
                    es.extend(v[1][:2])
                    return True
                v = self.g.scalar(kids[m]) if s[kids[m]]["k"] == "leaf-list" else self.g.entry(kids[m], set())
                if v is not None:
                    es.append(v)
                    return True
            if op == "reorder" and len(es) > 1:
                rng.shuffle(es)
                return True
        if op == "delkey" and s[i]["k"] == "list" and s[i]["ky"]:
            k = s.iname(rng.choice(s[i]["ky"]))
            if k in o[1]:
                del o[1][k]
                return True
        if op == "change" and leaves:
            m = rng.choice(leaves)
            v = None
            if rng.random() < 0.5:      # value of the same leaf elsewhere
                vals = collect_vals(s, t).get(kids[m])
                v = rng.choice(vals) if vals else None
            v = v or self.g.scalar(kids[m])
            if v is not None and v != o[1][m]:
                o[1][m] = v
                return True
        return False


    def repeat(self, objs):
        """Give two entries of a list the same unique combination."""
        rng, s = self.rng, self.s
        ls = []
        for i, o in objs:
            for m, x in o[1].items():
                c = s.kid(i, m)
                if c and s[c]["k"] == "list" and s[c]["uq"] and len(x[1]) > 1:
                    ls.append((c, x[1]))
        if not ls:
            return False
        c, es = rng.choice(ls)
        while len(es) < 4 and rng.random() < 0.6:
            v = self.g.entry(c, set())
            if v is not None:
                es.insert(rng.randint(0, len(es)), v)
        a, b = rng.sample(range(len(es)), 2)
        if rng.random() < 0.5:
            a, b = rng.choice([(0, len(es) - 1), (len(es) - 1, 0)])
        for x in rng.choice(s[c]["uq"]):
            ms = [s.iname(y) for y in s.ancestors(x)[len(s.ancestors(c)):]]
            src, dst = es[a], es[b]
            for m in ms[:-1]:
                src = src and src[1].get(m)
                dst = dst[1].setdefault(m, ["o", {}])
            v = src and src[1].get(ms[-1])
            if v is None:
                dst[1].pop(ms[-1], None)
            else:
                dst[1][ms[-1]] = v
        return True


def outcome(inst, scope, ct):
    try:
        inst.validate(SC[scope], CT[ct])
        return ["ok"]
    except ValidationError as e:
        return ["err", type(e).__name__, str(e.tag), pos(e.instance)]
    except RecursionError:
        raise
    except Exception as e:
        return ["err", type(e).__name__, str(e)[:200], []]


def has_bad(sch, t):
    """Is there an unknown member or an ill-typed leaf?"""
    def walk(i, v):
        if sch[i]["k"] == "anydata":
            return False
        if v[0] == "o":
            return any(not sch.kid(i, m) or walk(sch.kid(i, m), x) for m, x in v[1].items())
        if v[0] == "a":
            return any(walk(i, x) for x in v[1])
        return not type_has(sch[i]["ty"], v)
    return walk(1, t)


def known_pos(rng, sch, t):
    """A random position all of whose members are in the schema."""
    i, p = 1, []
    while rng.random() < 0.75:
        if t[0] == "o" and sch[i]["k"] != "anydata":
            c = [m for m in t[1] if sch.kid(i, m)]
            if not c:
                break
            m = rng.choice(c)
            i, t = sch.kid(i, m), t[1][m]
            p.append(m)
        elif t[0] == "a" and t[1] and sch[i]["k"] != "anydata":
            k = rng.randrange(len(t[1]))
            t = t[1][k]
            p.append(k + 1)
        else:
            break
    return p


def validation(rng, payload):
    """scope: "syntax", "semantics" or "mixed"."""
    evs = []
    kind = payload["kind"]
    for k in range(payload["schemas"]):
        cond = rng.random() < 0.6
        o = dict(state=0.2, status=rng.choice([0, 0, .1]))
        if kind == "syntax":
            o.update(choice=0.25, mand=0.25, when=rng.choice([0.15, 0.3]) if cond else 0, gwhen=0.3, leafref=0.05,
                     default=0.25)
        else:
            o.update(leafref=0.15, instid=0.08, must=rng.choice([0.1, 0.25]), unique=0.6, card=0.5,
                     when=0.08 if cond else 0, mand=0.1, default=0.3, choice=0.1)
        o.update(payload["opts"])
        r = Rec(rng, o, f"{rng.random()}")
        anycond = any(n["wh"] or n["whp"] or n["mu"] for n in r.s.nodes[1:])
        mut = Mut(rng, r, wild=not anycond)
        for _ in range(payload["trees"]):
            base, rt = r.tree(p_opt=rng.choice([0.3, 0.5, 0.7, 0.9]),
                              ctype=rng.choice(["all", "all", "config"]))
            for t in [base] + [mut.apply(base) for _ in range(payload["muts"])]:
                if kind != "syntax" and (has_bad(r.s, t) or ambiguous(t, rt)):
                    continue
                if anycond and kind == "syntax" and has_bad_conv(r.s, t):
                    continue
                try:
                    inst = r.use(t, rt, raw=False)
                except YangsonException as ex:
                    r.add(op="valid", n=[], scope="all", ct="all", out=["err", type(ex).__name__, str(ex), []])
                    continue
                for _ in range(2):
                    ct = rng.choice(["config", "all", "all", "nonconfig"])
                    if kind == "syntax":
                        sc = "syntax"
                    else:
                        sc = rng.choice(["semantics", "semantics", "all"])
                    n = known_pos(rng, r.s, t) if rng.random() < 0.25 else []
                    r.add(op="valid", n=n, scope=sc, ct=ct, out=outcome(goto(inst, n), sc, ct))
        evs += r.ev
    return evs


def has_bad_conv(sch, t):
    """Ill-typed leaf values whose string value is not specified."""
    def walk(i, v):
        if sch[i]["k"] == "anydata":
            return False
        if v[0] == "o":
            return any(sch.kid(i, m) and walk(sch.kid(i, m), x) for m, x in v[1].items())
        if v[0] == "a":
            return any(walk(i, x) for x in v[1])
        ty = sch[i]["ty"]
        return not type_has(ty, v) and not (v[0] == "i" and ty["b"] in INTR or
                                            v[0] == "s" and ty["b"] in ("string", "enumeration"))
    return walk(1, t)


# -- C18 ------------------------------------------------------------------------
def rebuilt(rng, dm, sch, inst, t):
    """The same tree reached in another way; (node, member order kept?)"""
    k = rng.randrange(7)
    if k == 0:          # member by member
        v = inst.value
        node = RootNode(type(v)(), dm.schema, dm.schema_data, v.timestamp)
        for m in v:
            if not sch.kid(1, m):
                return rooted(dm, sch, t), True
            node = node.put_member(m, v[m]).up()
        return node, True
    if k == 1:          # walk somewhere and back
        p = known_pos(rng, sch, t)
        return goto(inst, p).top(), False
    if k == 2:          # replace a value by an equal one
        p = known_pos(rng, sch, t)
        n = goto(inst, p)
        return n.update(n.value).top(), False
    if k == 3:          # put an additional member and delete it again
        ms = [m for m in inst.value if sch.kid(1, m)]
        c = [x for x in sch.data_kids(1) if sch.iname(x) not in inst.value]
        if c:
            i = sch.iname(rng.choice(c))
            return inst.put_member(i, "x").up().delete_item(i), False
        return inst, True
    if k == 4:          # other order of members

        def shuf(v):
            if v[0] == "o":
                ks = list(v[1])
                rng.shuffle(ks)
                return ["o", {x: shuf(v[1][x]) for x in ks}]
            if v[0] == "a":
                return ["a", [shuf(x) for x in v[1]]]
            return v
        return rooted(dm, sch, shuf(t)), False
    if k == 5:          # delete an entry and put it back
        p = known_pos(rng, sch, t)
        while p and isinstance(p[-1], str):
            p.pop()
        if p:
            e = goto(inst, p)
            v, i = e.value, e.index
            arr = e.up().delete_item(i)
            if i < len(arr.value):
                return arr[i].insert_before(v).top(), False
            if arr.value:
                return arr[i - 1].insert_after(v).top(), False
        return inst, True
    return rooted(dm, sch, t), True


def shared(new, nt, old, ot):
    """Value of tree nt in which unchanged parts are objects of the value of ot."""
    if nt == ot:
        return old
    if nt[0] == ot[0] == "o":
        for m in nt[1]:
            if m in ot[1] and m in old and m in new:
                new[m] = shared(new[m], nt[1][m], old[m], ot[1][m])
    elif nt[0] == ot[0] == "a":
        for i in range(len(nt[1])):
            j = i if i < len(ot[1]) and ot[1][i] == nt[1][i] else \
                next((k for k, x in enumerate(ot[1]) if x == nt[1][i]), min(i, len(ot[1]) - 1))
            if j >= 0:
                new[i] = shared(new[i], nt[1][i], old[j], ot[1][j])
    return new


def count(rng, r, insts):
    """Some validations (as long as they succeed) with the counters of the schema nodes before and after."""
    j = None
    r.dm.clear_val_counters()
    r.add(op="clear")
    r.add(op="counts", c=counters(r))
    for _ in range(rng.randint(1, 4)):
        j = rng.randrange(len(insts))
        t, rt, inst, bad = insts[j]
        p = known_pos(rng, r.s, t) if rng.random() < 0.3 else []
        r.add(op="tree", tree=emit(t), rt=rt)
        if outcome(goto(inst, p), rng.choice(["syntax", "semantics", "all"]), rng.choice(["config", "all"]))[0] != "ok":
            return j
        r.add(op="counted", n=p)
        r.add(op="counts", c=counters(r))
    return j


def counters(r):
    s, res = r.s, [0] * (len(r.s.nodes) - 1)

    def walk(i, sn):
        if sn is None:              # (obsolete)
            return
        res[i - 1] = sn.val_count
        for k in s.data_kids(i):
            walk(k, sn.get_data_child(s[k]["nm"], s[k]["md"]))
    walk(1, r.dm.schema)
    return res


def purity(rng, payload):
    evs = []
    for k in range(payload["schemas"]):
        o = dict(state=0.2, status=rng.choice([0, .05]), choice=0.2, mand=0.15, when=0.2, gwhen=0.3, leafref=0.12, instid=0.06, must=0.15,
                 unique=0.5, card=0.4, default=0.3)
        o.update(payload["opts"])
        r = Rec(rng, o, f"{rng.random()}")
        anycond = any(n["wh"] or n["whp"] or n["mu"] for n in r.s.nodes[1:])
        mut = Mut(rng, r, wild=not anycond)
        mod = r.s.mods[-1]
        insts = []
        for _ in range(payload["trees"]):
            base, rt = r.tree(p_opt=rng.choice([0.3, 0.5, 0.7, 0.9]), ctype=rng.choice(["all", "config"]))
            for t in [base] + [mut.apply(base) for _ in range(payload["muts"])]:
                if anycond and has_bad_conv(r.s, t) or ambiguous(t, rt):
                    continue
                insts.append((t, rt, rooted(r.dm, r.s, t), has_bad(r.s, t)))
        if not insts:
            continue
        fresh = {}
        last = None

        def expected(j, p, sc, ct):
            key = (j, json.dumps(p), sc, ct)
            if key not in fresh:
                dm = r.s.load()
                fresh[key] = outcome(goto(rooted(dm, r.s, insts[j][0]), p), sc, ct)
            return fresh[key]
        todo = []
        for step in range(payload["steps"]):
            forced = todo.pop(0) if todo else None
            j = forced[0] if forced else rng.randrange(len(insts))
            t, rt, inst, bad = insts[j]
            op = 1 if forced else rng.random()
            if 0.2 <= op < 0.4 and len(insts) < 60:     # an edited tree that shares what was not changed
                t2 = mut.apply(t)
                if t2 != t and not (anycond and has_bad_conv(r.s, t2) or ambiguous(t2, rt)):
                    i2 = rooted(r.dm, r.s, t2)
                    i2 = RootNode(shared(i2.value, t2, inst.value, t), r.dm.schema, r.dm.schema_data, i2.timestamp)
                    if proj(i2.value) == proj(rooted(r.dm, r.s, t2).value):
                        insts.append((t2, rt, i2, has_bad(r.s, t2)))
                        sc, ct = rng.choice(["syntax", "semantics", "all", "all"]), rng.choice(["config", "all", "all"])
                        todo = [(x, sc, ct) for x in rng.choice([(j, len(insts) - 1), (j, len(insts) - 1, j)])]
                continue
            if 0.4 <= op < 0.45:        # validation counters
                last = count(rng, r, insts)
                continue
            if op < 0.2:        # other uses of the shared model
                try:
                    q = rng.randrange(4)
                    if q == 0:
                        inst.add_defaults(rng.choice(list(CT.values())), tag=rng.random() < 0.5)
                    elif q == 1:
                        g = xgen.XGen(rng, r.s, mod, collect_vals(r.s, t)) if not bad else None
                        if g:
                            ps = positions(r.s, t)
                            p, i, _ = rng.choice(ps)
                            e = g.expr(i, 2)
                            sctx = SchemaContext(r.dm.schema_data, mod, (mod, "2024-01-01"))
                            XPathParser(ygen.xtext(e, r.s, mod, rng), sctx).parse().evaluate(goto(inst, p))
                    elif q == 2:
                        inst.raw_value()
                    else:
                        r.dm.from_raw(raw_tree(r.s, 1, t))
                except RecursionError:
                    raise
                except Exception:
                    pass
                continue
            p = known_pos(rng, r.s, t) if rng.random() < 0.2 else []
            sc = rng.choice(["syntax", "semantics", "all", "all"])
            ct = rng.choice(["config", "all", "all", "nonconfig"])
            if forced:
                p, sc, ct = [], *forced[1:]
            exp = expected(j, p, sc, ct)
            node, ordered = inst, True
            if not forced and rng.random() < 0.5:
                node, ordered = rebuilt(rng, r.dm, r.s, inst, t)
            before = proj(node.value)
            out = outcome(goto(node, p), sc, ct)
            r.add(op="same", a=exp if ordered else exp[:1], b=out if ordered else out[:1],
                  what=f"outcome of validation {sc}/{ct}")
            r.add(op="same", a=before, b=proj(node.value), what="instance after validation")
            if not (bad and sc != "syntax"):
                if last != j:
                    r.add(op="tree", tree=emit(t), rt=rt)
                    last = j
                r.add(op="valid", n=p, scope=sc, ct=ct, out=out)
        evs += r.ev
    return evs
