"""Driver of C14: graphs of identities and queries about them."""
import json
import xml.etree.ElementTree as ET

from models import REV, header, load
from yangson.exceptions import YangsonException
from yangson.schemadata import SchemaContext
from yangson.xmlparser import XMLParser
from yangson.xpathparser import XPathParser

CASE_CPU = 100
LOCAL = ["a", "b", "c", "a-b", "x.y", "_z"]


class Graph:
    """Modules with identities and identityref leaves."""

    def __init__(self, rng):
        self.rng = rng
        n = rng.choice([1, 2, 2, 3, 4])
        self.mods = [f"m{i}" for i in range(n)]
        # import-only modules
        self.imports = [m for m in self.mods[:-1] if rng.random() < .3]
        self.files = []                        # (file, main module)
        self.subs = {}
        for m in self.mods:
            self.files.append((m, m))
            for k in range(rng.choice([0, 0, 1, 2])):
                self.files.append((f"{m}s{k}", m))
                self.subs.setdefault(m, []).append(f"{m}s{k}")
        # prefixes are local to files, the same prefix may mean different modules
        self.px = {}
        for f, m in self.files:
            k = self.mods.index(m)
            names = ["p", "q", "r", "s", "m0", "m1", f, f]       # also the name of the (sub)module itself
            if names.count(f) > 2 or rng.random() < .6:
                names = names[:6]
            names = list(dict.fromkeys(names))
            rng.shuffle(names)
            self.px[f] = {x: names.pop() for x in self.mods[:k + 1]}
        order = [(nm, m) for m in self.mods for nm in LOCAL if rng.random() < .55]
        if not order:
            order = [("a", self.mods[-1])]
        self.ids = []
        for i, (nm, m) in enumerate(order):
            k = self.mods.index(m)
            # any identity of this or an earlier module; acyclic by a hidden rank
            self.ids.append([nm, m, []])
        ranks = {(x[0], x[1]): rng.random() + 2 * self.mods.index(x[1]) for x in self.ids}
        for x in self.ids:
            cand = [(y[0], y[1]) for y in self.ids if ranks[y[0], y[1]] < ranks[x[0], x[1]]]
            if cand and rng.random() < .85:
                near = sorted(cand, key=lambda c: -ranks[c])[:3]
                x[2] = rng.sample(cand, min(len(cand), rng.choice([0, 1, 1, 2, 3]))) if rng.random() < .5 else \
                    rng.sample(near, min(len(near), rng.choice([1, 1, 2])))
        self.leaves = []                      # (name, module, bases, kind)
        for m in self.mods:
            if m in self.imports:
                continue
            k = self.mods.index(m)
            cand = [(y[0], y[1]) for y in self.ids if self.mods.index(y[1]) <= k]
            for j in range(3):
                if cand:
                    bs = rng.sample(cand, min(len(cand), rng.choice([1, 1, 1, 2, 3])))
                    self.leaves.append((f"{m}l{j}", m, bs, rng.choice(["leaf", "leaf", "leaf-list", "typedef"])))

    def ref(self, q, f, m):
        """Reference to identity q in file f of module m."""
        if q[1] == m and self.rng.random() < .5:
            return q[0]
        return f"{self.px[f][q[1]]}:{q[0]}"

    def texts(self):
        rng = self.rng
        res = {}
        body = {f: [] for f, _ in self.files}
        for nm, m, bases in self.ids:
            f = rng.choice([f for f, mm in self.files if mm == m])
            bs = "".join(f" base {self.ref(b, f, m)};" for b in bases)
            body[f].append(f"identity {nm} {{{bs} }}" if bs else f"identity {nm};")
        for nm, m, bases, kind in self.leaves:
            f = rng.choice([f for f, mm in self.files if mm == m])
            t = "type identityref {" + "".join(f" base {self.ref(b, f, m)};" for b in bases) + " }"
            if kind == "typedef":
                body[f].append(f"typedef t-{nm} {{ {t} }}")
                t = f"type t-{nm};"
            body[f].append(f"{'leaf-list' if kind == 'leaf-list' else 'leaf'} {nm} {{ {t} }}")
        for f, m in self.files:
            rng.shuffle(body[f])
            k = self.mods.index(m)
            subs = self.subs.get(m, [])
            imp = [(x, self.px[f][x]) for x in self.mods[:k]]
            rng.shuffle(imp)
            t = header(f, self.px[f][m], body[f], imp, [s for s in subs if s != f])
            if f != m:
                t = t.replace(f"module {f} {{", f"submodule {f} {{").replace(
                    f'  namespace "urn:{f}";\n  prefix {self.px[f][m]};\n',
                    f"  belongs-to {m} {{ prefix {self.px[f][m]}; }}\n")
            res[f] = t
        return res


def queries(rng, payload):
    evs = []
    for _ in range(payload["graphs"]):
        evs.extend(one(rng, payload))
    return evs


def qn(q):
    return [q[0], q[1]]


def one(rng, payload):
    g = Graph(rng)
    texts = g.texts()
    order = list(g.mods)
    rng.shuffle(order)
    ev = {"op": "load", "idents": [[n, m, [qn(b) for b in bs]] for n, m, bs in g.ids],
          "impl": [m for m in g.mods if m not in g.imports], "out": "ok", "texts": texts}
    evs = [ev]
    try:
        dm = load(texts, submodules=g.subs, imports=g.imports, order=order)
    except Exception as ex:
        ev["out"] = f"{type(ex).__name__}: {ex}"
        return evs
    sd = dm.schema_data
    known = [(x[0], x[1]) for x in g.ids]
    odd = known + [("nope", g.mods[-1]), ("a", "nomod"), ("a", g.mods[0])]

    def ask(f):
        try:
            return f()
        except RecursionError:
            raise
        except Exception as ex:
            return ["err", type(ex).__name__]

    def yesno(v):
        return ["yes"] if v is True else ["no"] if v is False else ["err", repr(v)]

    def listing(v):
        return ["ok", sorted([list(x) for x in v])]
    for _ in range(payload["queries"]):
        k = rng.random()
        if k < .25:
            x, b = rng.choice(odd), rng.choice(odd)
            evs.append({"op": "der", "x": qn(x), "b": qn(b), "out": ask(lambda: yesno(sd.is_derived_from(x, b)))})
        elif k < .45:
            x = rng.choice(odd)
            evs.append({"op": "from", "x": qn(x), "out": ask(lambda: listing(sd.derived_from(x)))})
        elif k < .6:
            bs = [rng.choice(odd) for _ in range(rng.choice([1, 2, 2, 3]))]
            evs.append({"op": "all", "bs": [qn(b) for b in bs], "out": ask(lambda: listing(sd.derived_from_all(list(bs))))})
        elif k < .64 and g.leaves:
            dig = json.loads(dm.schema_digest())
            nm, m, bs, kind = rng.choice(g.leaves)
            ty = dig["children"][f"{m}:{nm}"]["type"]
            evs.append({"op": "digest", "bs": [qn(b) for b in bs],
                        "out": ["ok", sorted(list(x) for x in ty["identities"])]})
        elif k < .85 and g.leaves:
            nm, m, bs, kind = rng.choice(g.leaves)
            x = rng.choice(odd)
            how = rng.choice(["json", "json", "xml", "default"])
            e = {"op": "val", "bs": [qn(b) for b in bs], "x": qn(x), "how": how}
            e["out"] = ask(lambda: yesno(value(rng, dm, g, nm, m, kind, x, how)))
            evs.append(e)
        elif g.leaves:
            nm, m, bs, kind = rng.choice(g.leaves)
            sd_impl = [x for x in known if x[1] not in g.imports]
            vs = [rng.choice(sd_impl) for _ in range(rng.choice([1, 1, 2, 3]))] if sd_impl else []
            if kind != "leaf-list":
                vs = vs[:1]
            vs = list(dict.fromkeys(vs))
            f = rng.choice([f for f, mm in g.files if mm == m])
            b = rng.choice([x for x in odd if x[1] in g.px[f]])
            this = rng.random() < .5
            txt = (f"derived-from{'-or-self' if this else ''}(/{g.px[f][m]}:{nm}, "
                   f"'{g.ref(b, f, m)}')")
            evs.append({"op": "xp", "vs": [qn(v) for v in vs], "b": qn(b), "self": this, "text": txt,
                        "out": ask(lambda: yesno(xpath(dm, m, f, nm, kind, vs, txt)))})
    return evs


def value(rng, dm, g, nm, m, kind, x, how):
    """Is x accepted as a value of the leaf?"""
    try:
        if how == "json":
            t = x[0] if x[1] == m and rng.random() < .5 else f"{x[1]}:{x[0]}"
            root = dm.from_raw({f"{m}:{nm}": [t] if kind == "leaf-list" else t})
        elif how == "xml":
            p = rng.choice(["a", "m0", "zz"])
            if rng.random() < .5 and x[1] == m:
                doc = f'<top><{nm} xmlns="urn:{m}">{x[0]}</{nm}></top>'
            else:
                doc = f'<top><{nm} xmlns="urn:{m}" xmlns:{p}="urn:{x[1]}">{p}:{x[0]}</{nm}></top>'
            root = dm.from_xml(XMLParser(doc).root)
        else:
            leaf = dm.get_data_node(f"/{m}:{nm}")
            return x in leaf.type
        root.validate()
        return True
    except YangsonException:
        return False


def xpath(dm, m, f, nm, kind, vs, txt):
    ts = [f"{x[1]}:{x[0]}" for x in vs]
    data = {f"{m}:{nm}": ts if kind == "leaf-list" else ts[0]} if ts else {}
    root = dm.from_raw(data)
    sctx = SchemaContext(dm.schema_data, m, (f, REV))
    return XPathParser(txt, sctx).parse().evaluate(root)
