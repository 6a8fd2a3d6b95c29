"""Driver of C12: features and if-feature expressions."""
from models import REV, header, load
from yangson.exceptions import (InvalidFeatureExpression, ParserException, UnknownPrefix, YangsonException)
from yangson.schemadata import FeatureExprParser

CASE_CPU = 100
NAMES = ["a", "b", "c", "not-a", "nota", "or", "and", "andx", "order", "x.not", "_f", "or-b", "no", "n", "not2"]


class World:
    """Modules with features; files see each other through local prefixes."""

    def __init__(self, rng):
        self.rng = rng
        n = rng.choice([1, 2, 3])
        self.mods = [f"m{i}" for i in range(n)]
        self.imports = [m for m in self.mods[:-1] if rng.random() < .3]
        self.files, self.subs = [], {}
        for m in self.mods:
            self.files.append((m, m))
            for k in range(rng.choice([0, 0, 1])):
                self.files.append((f"{m}s{k}", m))
                self.subs.setdefault(m, []).append(f"{m}s{k}")
        self.px = {}
        for f, m in self.files:
            names = ["p", "q", "m0", "not", "or", "a", "m1"]
            rng.shuffle(names)
            self.px[f] = {x: names.pop() for x in self.mods[:self.mods.index(m) + 1]}
        self.feats = {m: rng.sample(NAMES, rng.randrange(1, 6)) for m in self.mods}
        self.on = {m: [x for x in self.feats[m] if rng.random() < .6] for m in self.mods}

    def ref(self, f, m):
        k = self.rng.choice(list(self.px[f]))
        nm = self.rng.choice(self.feats[k] if self.rng.random() < .95 else NAMES)
        if k == m and self.rng.random() < .7:
            return nm
        return f"{self.px[f][k]}:{nm}"

    def expr(self, f, m, d):
        rng = self.rng
        k = rng.random()
        if d <= 0 or k < .25:
            return ("f", self.ref(f, m))
        if k < .5:
            return ("not", self.expr(f, m, d - 1))
        return (rng.choice(["and", "or"]), self.expr(f, m, d - 1), self.expr(f, m, d - 1))

    def prereqs(self):
        """[(file, feature, expressions)], acyclic."""
        rng, res = self.rng, []
        order = [(m, x) for m in self.mods for x in self.feats[m]]
        for m, x in order:
            f = rng.choice([f for f, mm in self.files if mm == m])
            es = []
            if rng.random() < .4:
                for _ in range(rng.choice([1, 1, 2])):
                    e = text(rng, self.expr(f, m, rng.choice([0, 1, 2])), 0)
                    es.append(e)
            res.append([f, x, es])
        return res

    def settle(self, defs):
        """Make it likely that prerequisites are met (repeat naive evaluation)."""
        rng = self.rng
        for f, x, es in defs:
            m = dict(self.files)[f]
            if x in self.on[m] and es and rng.random() < .7:
                self.on[m].remove(x)


def ws(rng):
    return rng.choice([" ", " ", " ", "  ", "\t", "\n  "])


def text(rng, e, prec, tight=0.3):
    """Text of an expression with the needed and some redundant parentheses."""
    o = rng.choice(["", "", " ", "\n"])
    if e[0] == "f":
        t, p = e[1], 3
    elif e[0] == "not":
        t, p = "not" + ws(rng) + text(rng, e[1], 2), 2
    elif e[0] == "and":
        t, p = text(rng, e[1], 2) + ws(rng) + "and" + ws(rng) + text(rng, e[2], 1), 1
    else:
        t, p = text(rng, e[1], 1) + ws(rng) + "or" + ws(rng) + text(rng, e[2], 0), 0
    if p < prec or rng.random() < .12:
        return "(" + o + t + rng.choice(["", "", " "]) + ")"
    return t


def mutate(rng, t):
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(t) + 1)
        k = rng.random()
        if k < .3 and t:
            t = t[:i] + t[i + 1:]
        elif k < .7:
            t = t[:i] + rng.choice(["(", ")", " ", "not ", " and ", " or ", "not", "and", "or", ":", "a", "-", "1", "()",
                                    " not ", "AND", "|", "!", "\n"]) + t[i:]
        else:
            w = t.split(" ")
            j = rng.randrange(len(w))
            if k < .85:
                del w[j]
            else:
                w.insert(j, rng.choice(["not", "and", "or", "a", "(", ")", "not not"]))
            t = " ".join(w)
    return t


def exprs(rng, payload):
    evs = []
    for _ in range(payload["worlds"]):
        evs.extend(one(rng, payload))
    return evs


def one(rng, payload):
    w = World(rng)
    defs = w.prereqs()
    if rng.random() < .8:
        w.settle(defs)
    body = {f: [] for f, _ in w.files}
    for f, x, es in defs:
        q = "'" if rng.random() < .5 else '"'
        body[f].append(f"feature {x} {{" + "".join(f" if-feature {q}{e}{q};" for e in es) + " }")
    if rng.random() < .1:       # a malformed condition
        d = rng.choice(defs)
        d[2].append(mutate(rng, "a and b").replace('"', "").replace("'", ""))
        i = [k for k, b in enumerate(body[d[0]]) if b.startswith(f"feature {d[1]} {{")][0]
        body[d[0]][i] = f"feature {d[1]} {{" + "".join(f" if-feature '{e}';" for e in d[2]) + " }"
    texts = {}
    for f, m in w.files:
        t = header(f, w.px[f][m], body[f], [(x, w.px[f][x]) for x in w.mods[:w.mods.index(m)]],
                   [s for s in w.subs.get(m, []) if s != f])
        if f != m:
            t = t.replace(f"module {f} {{", f"submodule {f} {{").replace(
                f'  namespace "urn:{f}";\n  prefix {w.px[f][m]};\n',
                f"  belongs-to {m} {{ prefix {w.px[f][m]}; }}\n")
        texts[f] = t
    # (what YANG strips at line breaks inside double quotes leaves a separator)
    ev = {"op": "load", "files": [{"n": f, "m": m, "ft": w.on[m], "px": [[p, x] for x, p in w.px[f].items()]}
                                  for f, m in w.files],
          "defs": defs, "texts": texts}
    evs = [ev]
    try:
        dm = load(texts, features=w.on, submodules=w.subs, imports=w.imports)
        ev["out"] = ["ok"]
    except Exception as ex:
        ev["out"] = ["err", type(ex).__name__, isinstance(ex, YangsonException)]
        return evs
    sd = dm.schema_data
    for _ in range(payload["exprs"]):
        f, m = rng.choice(w.files)
        t = text(rng, w.expr(f, m, rng.choice([0, 1, 2, 3, 4])), 0)
        if rng.random() < .3:
            t = mutate(rng, t)
        e = {"op": "iff", "f": f, "text": t}
        try:
            r = FeatureExprParser(t, sd, (f, REV)).parse()
            e["out"] = ["yes"] if r is True else ["no"] if r is False else ["yes?" + repr(r)]
        except RecursionError:
            raise
        except Exception as ex:
            e["out"] = ["err", type(ex).__name__, isinstance(ex, (ParserException, InvalidFeatureExpression, UnknownPrefix))]
        evs.append(e)
    return evs

