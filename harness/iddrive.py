"""Driver of C04: routes, instance identifiers, resource identifiers."""
from urllib.parse import quote

import ygen
from ddrive import Rec, at, goto, positions
from values import INTR, cook, proj, raw, text
from ygen import emit
from yangson.exceptions import YangsonException

CASE_CPU = 300
MAXLEN = str(2 ** 64 - 1)
L1 = "".join(map(chr, range(192, 256)))      # %C3%80 ... %C3%BF


def eff(ty):
    """Effective type for TypeDefs."""
    t = {"b": "none", "iv": [], "fd": 0, "ln": [], "pt": [], "en": [], "bt": [], "ids": [], "u": []}
    if ty is None:
        return t
    b = ty["b"]
    if b == "leafref":
        return eff(ty["ty"])
    t["b"] = b
    if b in INTR:
        t["iv"] = [[str(x), str(y)] for x, y in ty.get("rg") or [INTR[b]]]
    elif b in ("string", "binary"):
        t["ln"] = [[str(x), str(y)] for x, y in ty.get("ln") or [[0, MAXLEN]]]
        t["pt"] = [p[:2] for p in ty.get("pt", [])]
    elif b == "decimal64":
        t["fd"] = ty["fd"]
        t["iv"] = [[str(-2 ** 63), str(2 ** 63 - 1)]]
    elif b == "enumeration":
        t["en"] = [[n, i] for n, i in zip(ty["en"], ty.get("ev", range(len(ty["en"]))))]
    elif b == "bits":
        t["bt"] = [[n, i] for i, n in enumerate(ty["bt"])]
    elif b == "identityref":
        t["ids"] = [list(x) for x in ty["ids"]]
    elif b == "union":
        t["u"] = [eff(u) for u in ty["u"]]
    return t


def allpos(sch, t):
    """Positions including arrays: (position, schema id, value)."""
    res = [([], 1, t)]

    def walk(i, v, p):
        if v[0] == "o" and sch[i]["k"] != "anydata":
            for m, x in v[1].items():
                c = sch.kid(i, m)
                if c:
                    res.append((p + [m], c, x))
                    walk(c, x, p + [m])
        elif v[0] == "a" and sch[i]["k"] != "anydata":
            for k, x in enumerate(v[1]):
                res.append((p + [k + 1], i, x))
                walk(i, x, p + [k + 1])
    walk(1, t, [])
    return res


def lex(rng, ty, v):
    """Some lexical form of a value."""
    if ty["b"] == "leafref":
        ty = ty["ty"]
    if v[0] in "oa":
        return "x"
    x = raw(v, ty)
    if not isinstance(x, str):
        x = text(v)
    r = rng.random()
    if r < 0.12:
        if v[0] == "i":
            x = rng.choice(["+" + x, "0" + x, x.replace("-", "-0")])
        elif v[0] == "d":
            x = x + "0" if ty.get("fd", 0) > 1 and len(x.split(".")[1]) < ty["fd"] else x
        elif v[0] == "t" and ty["b"] == "identityref":
            x = x.split(":")[1]
        elif v[0] == "t":
            x = "  ".join(reversed(x.split(" ")))
    elif r < 0.2:
        x = rng.choice(["", "zz", "1", "-7", x + "x", x[:-1], " " + x, "true", "3.5"])
    return x


class IdGen:
    def __init__(self, rng, sch, t):
        self.rng, self.s, self.t = rng, sch, t

    def name(self, par, c, md=None):
        n = self.s[c]
        r = self.rng.random()
        if r < 0.015:
            return self.rng.choice(["zz", "m1:zz", "m9:" + n["nm"], n["nm"] + "x", ("m1:" if n["md"] == "m2" else "m2:") + n["nm"]])
        if self.s[par]["md"] != n["md"]:
            return n["md"] + ":" + n["nm"] if r > 0.03 else n["nm"]
        return n["nm"] if r > 0.1 else n["md"] + ":" + n["nm"]

    def sp(self):
        return self.rng.choice([""] * 12 + [" ", "\t ", "\n"])

    def quoted(self, x):
        q = self.rng.choice("'\"")
        if q in x and self.rng.random() < 0.97:
            q = {"'": '"', '"': "'"}[q]
        return f"{self.sp()}={self.sp()}{q}{x}{q}{self.sp()}]"

    def iid(self, base, p):
        """Identifier of position p relative to the node at base."""
        rng, s = self.rng, self.s
        i, v = 1, self.t
        res = ""
        for d, x in enumerate(p):
            if isinstance(x, str):
                c = s.kid(i, x)
                par, i, v2 = i, c, v[1][x]
                if d >= len(base):
                    res += "/" + self.name(par, c)
            else:
                v2 = v[1][x - 1]
                if d >= len(base):
                    res += self.pred(i, x, v2)
            v = v2
        if rng.random() < 0.06:
            res = self.mutate(res)
        return res

    def pred(self, i, x, v):
        rng, s = self.rng, self.s
        n = s[i]
        r = rng.random()
        if n["k"] == "leaf-list":
            if r < 0.7:
                return f"[{self.sp()}.{self.quoted(lex(rng, n['ty'], v))}"
        elif n["ky"] and r < 0.8 or r < 0.2:
            ks = list(n["ky"])
            if r < 0.15:        # other leafs
                ks = [c for c in s.data_kids(i) if s[c]["k"] == "leaf" and s.iname(c) in v[1]]
                ks = rng.sample(ks, min(len(ks), rng.randint(1, 2)))
            elif rng.random() < 0.1:
                rng.shuffle(ks)
            elif rng.random() < 0.04:
                ks += [rng.choice(s.data_kids(i))]
            ks = [k for k in ks if s.iname(k) in v[1]]
            if ks:
                return "".join(f"[{self.sp()}{self.name(i, k)}" + self.quoted(
                    lex(rng, s[k]["ty"], v[1][s.iname(k)]) if s[k]["ty"] else "x") for k in ks)
        return f"[{self.sp()}" + str(x if rng.random() < 0.9 else rng.choice([x + 1, 0, 99, 10 ** 12, "01"])) + f"{self.sp()}]"

    def mutate(self, t):
        rng = self.rng
        k = rng.randint(0, len(t))
        r = rng.random()
        if r < 0.25:
            return t[:k]
        if r < 0.5:
            return t[:k] + t[k + 1:]
        if r < 0.75:
            return t[:k] + rng.choice("/[]='\".:@ x1-\n") + t[k:]
        return rng.choice([t + "/", t + "[1]", t.replace("/", "//", 1), t[1:], t + "/zz", t + "/m1:zz", " " + t, t + " ", "", "/", "//",
                           t.replace("]", "", 1), t.replace("=", "", 1), t.replace("[", "[1][", 1)])

    def enc(self, x):
        rng = self.rng
        r = rng.random()
        if r < 0.75:
            return quote(x, safe="")
        if r < 0.9:
            return quote(x, safe=":;=@!$&'()*+ \"<>[]")
        if r < 0.95:
            return "".join(f"%{b:02{rng.choice('xX')}}" for b in x.encode())
        return x

    def rid(self, p):
        rng, s = self.rng, self.s
        i, v = 1, self.t
        res = ""
        for x in p:
            if isinstance(x, str):
                c = s.kid(i, x)
                res += "/" + self.name(i, c)
                i, v = c, v[1][x]
            else:
                v = v[1][x - 1]
                n = s[i]
                if n["k"] == "leaf-list":
                    res += "=" + self.enc(lex(rng, n["ty"], v))
                else:
                    ks = [(s[k]["ty"], v[1].get(s.iname(k))) for k in n["ky"]]
                    xs = [self.enc(lex(rng, ty, y)) for ty, y in ks if y]
                    if rng.random() < 0.04:
                        xs = rng.choice([xs[:-1], xs + ["x"], xs[::-1]])
                    res += "=" + ",".join(xs)
        r = rng.random()
        if r < 0.06:
            res = self.mutate(res)
        elif r < 0.1:
            res = rng.choice([res[1:], res + "/", res + "=1", res + "=", res + "%zz", res.replace("%", "%25", 1), res + "/x"])
        return res


def out(f, kind):
    try:
        r = f()
    except RecursionError:
        raise
    except Exception as e:
        return ["err", type(e).__name__, isinstance(e, YangsonException)]
    if kind == "goto":
        return ["at", [x if isinstance(x, str) else x + 1 for x in r.path]]
    return ["none"] if r is None else ["val", proj(r)]


def ids(rng, payload):
    evs = []
    for _ in range(payload["schemas"]):
        opts = {"choice": 0.1, "state": 0.3, "anydata": 0.04, "leafref": 0.08, "instid": 0.05,
                "nodes": rng.choice([10, 18, 26]), "default": 0.1, "lists": 2.0}
        if rng.random() < 0.6:      # texts have the most special characters
            opts["types"] = ["string"] * 8 + ygen.Opts().types
        r = Rec(rng, {k: v for k, v in opts.items() if hasattr(ygen.Opts(), k)}, str(rng.random()))
        s = r.s
        for n, m in zip(r.ev[0]["schema"], s.nodes[1:]):
            n["et"] = eff(m["ty"])
        for _ in range(payload["trees"]):
            t, rt = r.tree()
            if rng.random() < 0.4:
                duplicate(rng, s, t)
            root = r.use(t, rt)
            ps = allpos(s, t)
            nodes = rng.sample(ps, min(len(ps), payload["nodes"]))
            for p, i, v in nodes:
                n = goto(root, p)
                ev = {"op": "route", "p": p}
                try:
                    ir = n.instance_route()
                    ev["txt"] = str(ir)
                except RecursionError:
                    raise
                except Exception as e:
                    ev.update(txt="", go=["err", type(e).__name__], pk=["none"], go2=["none"], pk2=["none"])
                    r.add(**ev)
                    continue
                ev["go"] = out(lambda: root.goto(ir), "goto")
                ev["pk"] = out(lambda: root.peek(ir), "peek")
                ev["go2"] = out(lambda: root.goto(r.dm.parse_instance_id(ev["txt"])), "goto")
                ev["pk2"] = out(lambda: root.peek(r.dm.parse_instance_id(ev["txt"])), "peek")
                r.add(**ev)
            g = IdGen(rng, s, t)
            for _ in range(payload["ids"]):
                p, i, v = rng.choice(ps)
                base, op = [], "iid"
                if rng.random() < 0.25:
                    base = p[:rng.randint(0, len(p))]
                    while base and not isinstance(base[-1], str) and False:
                        base = base[:-1]
                if rng.random() < 0.45 and not base:
                    op = "rid"
                    txt = g.rid(p)
                else:
                    if base and (len(base) == len(p) or not isinstance(p[len(base)], str)):
                        base = []
                    txt = g.iid(base, p)
                ev = {"op": op, "p": base, "txt": txt, "l1": L1, "go": ["none"], "pk": ["none"]}
                try:
                    ir = (r.dm.parse_instance_id if op == "iid" else r.dm.parse_resource_id)(txt)
                except RecursionError:
                    raise
                except Exception as e:
                    ev["out"] = ["err", type(e).__name__, isinstance(e, YangsonException)]
                    r.add(**ev)
                    continue
                ev["out"] = ["ok"]
                n = goto(root, base)
                ev["go"] = out(lambda: n.goto(ir), "goto")
                ev["pk"] = out(lambda: n.peek(ir), "peek")
                r.add(**ev)
            arrays = [x for x in ps if s[x[1]]["k"] == "list" and x[2][0] == "a" and x[2][1]]
            for p, i, v in rng.sample(arrays, min(len(arrays), 4)):
                e = rng.choice(v[1])[1]
                ks = [c for c in s.data_kids(i) if s[c]["k"] == "leaf" and s.iname(c) in e]
                ks = rng.sample(ks, min(len(ks), rng.randint(0, 2)))
                vals = {s.iname(k): e[s.iname(k)] for k in ks}
                if ks and rng.random() < 0.2:
                    vals[s.iname(ks[0])] = rng.choice(v[1])[1].get(s.iname(ks[0]), ["s", "zz"])
                if any(x[0] in "rj" for x in vals.values()):
                    continue
                rw = rng.random() < 0.5 and ["s", "zz"] not in vals.values()
                if rw:
                    kw = {k: raw(x, s[s.kid(i, k)]["ty"]) for k, x in vals.items()}
                else:
                    kw = {k: cook(x) for k, x in vals.items()}
                r.add(op="look", p=p, keys=[[k, x] for k, x in vals.items()],
                      go=out(lambda: goto(root, p).look_up(*([True] if rw else []), **kw), "goto"))
        evs += r.ev
    return evs


def duplicate(rng, s, t):
    """Repeat entries."""
    for p, i, v in allpos(s, t):
        if v[0] == "a" and v[1] and rng.random() < 0.4 and s[i]["k"] != "anydata":
            v[1].insert(rng.randint(0, len(v[1])), rng.choice(v[1]))
