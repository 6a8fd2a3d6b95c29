"""Random well-typed XPath expressions over an abstract schema."""
import ygen
from ygen import STRS
from values import text as text_scalar, INTR

AXES = ["child", "descendant", "parent", "ancestor", "following-sibling", "preceding-sibling",
        "self", "descendant-or-self", "ancestor-or-self"]
LITS = ["", "x", "a", "foo", "1", "2", " 1 ", "10", "-1", "0.5", "1e3", "true", "false", "a b", "  a  b ",
        "NaN", "Infinity", "é", "Ωa", "+1", "1.", ".5", "- 1", "00", "-0", "b", "one", "three"]


class XGen:
    def __init__(self, rng, sch, mod, vals=None):
        self.rng, self.s, self.mod = rng, sch, mod
        self.vals = vals or {}           # schema id -> list of values present
        self.visible = {i for i in sch.all_data() if all(
            sch.mods.index(sch[a]["md"]) <= sch.mods.index(mod) for a in sch.ancestors(i)[1:])}

    # ctx: set of schema ids the context node may be an instance of (1: root)
    def axis(self, ax, ids):
        s = self.s
        res = set()
        for i in ids:
            kids = [c for c in s.data_kids(i) if s[i]["k"] in ("root", "container", "list")]
            if ax in ("self", "descendant-or-self", "ancestor-or-self"):
                res.add(i)
            if ax == "child":
                res |= set(kids)
            elif ax in ("descendant", "descendant-or-self"):
                todo = list(kids)
                while todo:
                    x = todo.pop()
                    res.add(x)
                    if s[x]["k"] in ("container", "list"):
                        todo += s.data_kids(x)
            elif ax == "parent":
                if i != 1:
                    res.add(s.data_parent(i))
            elif ax in ("ancestor", "ancestor-or-self"):
                res |= set(s.ancestors(i)[:-1])
            elif ax.endswith("sibling"):
                if i != 1:
                    res |= set(s.data_kids(s.data_parent(i)))
        return res

    def step(self, ids, d):
        rng, s = self.rng, self.s
        for _ in range(6):
            ax = rng.choice(["child"] * 8 + ["parent"] * 2 + AXES)
            if ax == "parent" and rng.random() < 0.6:
                to = self.axis(ax, ids)
                if to:
                    return ["parent", "node", "", "", []], to
                continue
            to = self.axis(ax, ids) & (self.visible | {1})
            if ax.endswith("sibling"):
                same = {i for i in ids if s[i]["k"] in ("list", "leaf-list")} & to
                if same and rng.random() < 0.7:
                    to = same
            r = rng.random()
            names = sorted({(s[i]["nm"], s[i]["md"]) for i in to if i != 1})
            if names and (r < 0.75 or ax.endswith("sibling")):
                nm, md = rng.choice(names)
                to2 = {i for i in to if i != 1 and (s[i]["nm"], s[i]["md"]) == (nm, md)}
                st = [ax, "name", nm, md, []]
            elif r < 0.9:
                to2 = {i for i in to if i != 1}
                st = [ax, "*", "", "", []]
            else:
                to2 = to
                st = [ax, "node", "", "", []]
            if not to2:
                if rng.random() < 0.05:
                    return st, to2
                continue
            st[4] = self.preds(to2, d, st[1] == "name")
            return st, to2
        return ["self", "node", "", "", []], set(ids)

    def preds(self, ids, d, named=True):
        rng = self.rng
        res = []
        while d > 0 and rng.random() < 0.28:
            res.append(self.pred(ids, d - 1, named))
        return res

    def pred(self, ids, d, named):
        rng = self.rng
        r = rng.random()
        if named and r < 0.25:
            return ["num", rng.choice([1, 1, 2, 2, 3, 0]), 1]
        if named and r < 0.4:
            return ["bin", rng.choice(["=", "<", ">", "!=", ">=", "<="]), ["fn", "position", []],
                    rng.choice([["fn", "last", []], ["num", 2, 1], ["num", 1, 1],
                                ["bin", "-", ["fn", "last", []], ["num", 1, 1]]])]
        if named and r < 0.45:
            return rng.choice([["fn", "last", []], ["bin", "-", ["fn", "last", []], ["num", 1, 1]],
                               ["bin", "mod", ["fn", "position", []], ["num", 2, 1]]])
        return self.gbool(ids, d)

    def path(self, ids, d, n=None):
        rng, s = self.rng, self.s
        if not ids:
            ids = {1}
        n = n or rng.choice([1, 1, 2, 2, 3, 4])
        ab = rng.random() < 0.3
        cur = {1} if ab else ids
        steps = []
        for _ in range(n):
            st, cur2 = self.step(cur, d)
            steps.append(st)
            cur = cur2
            if not cur:
                break
        if ab and rng.random() < 0.05:
            return ["path", True, []], {1}
        if rng.random() < 0.12:
            steps.insert(rng.randint(1, len(steps)) if len(steps) > 1 else 0,
                         ["descendant-or-self", "node", "", "", []])
            if steps[-1][1] == "node" and steps[-1][0] == "descendant-or-self":
                steps.append(["self", "node", "", "", []])
            cur = self.visible | {1}
        return ["path", ab, steps], cur

    def ns(self, ids, d):
        """(expression, possible schema ids)"""
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.72:
            return self.path(ids, d)
        if r < 0.8:
            a, x = self.ns(ids, d - 1)
            b, y = self.ns(ids, d - 1)
            return ["union", a, b], x | y
        if r < 0.9:
            base, x = ["fn", "current", []], set(self.cur)
        elif r < 0.94:
            base, x = ["fn", "deref", [self.leafref_path(ids, d)]], self.visible | {1}
            tg = getattr(self, "_tgt", None)
            if tg:
                x = {tg}
        else:
            base, x = self.ns(ids, d - 1)
        preds = self.preds(x, d - 1, rng.random() < 0.3)
        steps = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            st, x = self.step(x, d - 1)
            steps.append(st)
        return ["filt", base, preds, steps], x

    def abspath(self, i):
        return ["path", True, [ygen.child(self.s[a]["nm"], self.s[a]["md"])
                               for a in self.s.ancestors(i)[1:]]]

    def typed_path(self, base, ids, d):
        """A path that leads to a leaf of a base type, if there is one."""
        s = self.s
        c = [i for i in self.visible if s[i]["ty"] and s[i]["ty"]["b"] == base]
        if c and self.rng.random() < 0.9:
            i = self.rng.choice(sorted(c))
            self._tgt = s[i]["ty"].get("tgt")
            e = self.abspath(i)
            if d > 0 and self.rng.random() < 0.3:
                e[2][-1][4] = self.preds({i}, d - 1)
            return e
        self._tgt = None
        return self.ns(ids, d - 1)[0]

    def leafref_path(self, ids, d):
        return self.typed_path(self.rng.choice(["leafref", "leafref", "instance-identifier"]), ids, d)

    def lit(self, ids):
        rng, s = self.rng, self.s
        c = [v for i in ids for v in self.vals.get(i, [])]
        if c and rng.random() < 0.6:
            t = text_scalar(rng.choice(c))
            if isinstance(t, str) and not ("'" in t and '"' in t):
                return ["str", t]
        t = rng.choice(LITS + [x for x in STRS if not ("'" in x and '"' in x)])
        return ["str", t]

    def gnumlit(self):
        n, d = self.rng.choice([(0, 1), (1, 1), (2, 1), (3, 1), (10, 1), (1, 2), (5, 2), (1, 4), (100, 1),
                                (32768, 1), (3, 8), (7, 1)])
        return ["num", n, d]

    def gnum(self, ids, d):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.2:
            return self.gnumlit()
        if r < 0.45:
            op = rng.choice(["+", "-", "*", "div", "mod"])
            return ["bin", op, self.gany(ids, d - 1, "num"), self.gany(ids, d - 1, "num")]
        if r < 0.53:
            return ["neg", self.gany(ids, d - 1, "num")]
        f = rng.choice(["count", "count", "sum", "number", "string-length", "floor", "ceiling", "round",
                        "enum-value", "position", "last"])
        if f in ("count", "sum"):
            return ["fn", f, [self.ns(ids, d - 1)[0]]]
        if f == "number" or f == "string-length":
            return ["fn", f, [] if rng.random() < 0.3 else [self.gany(ids, d - 1)]]
        if f == "enum-value":
            return ["fn", f, [self.typed_path("enumeration", ids, d)]]
        if f in ("position", "last"):
            return ["fn", f, []]
        return ["fn", f, [self.gany(ids, d - 1, "num")]]

    def gstr(self, ids, d):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.2:
            return self.lit(ids)
        f = rng.choice(["string", "concat", "substring", "substring", "substring-before", "substring-after",
                        "normalize-space", "translate", "local-name", "name", "string"])
        A = lambda: self.gany(ids, d - 1, "str")
        if f in ("string", "normalize-space"):
            return ["fn", f, [] if rng.random() < 0.3 else [A()]]
        if f == "concat":
            return ["fn", f, [A() for _ in range(rng.randint(2, 3))]]
        if f == "substring":
            return ["fn", f, [A()] + [self.gany(ids, d - 1, "num") for _ in range(rng.randint(1, 2))]]
        if f in ("substring-before", "substring-after"):
            return ["fn", f, [A(), rng.choice([["str", rng.choice("ab1 -x")], A()])]]
        if f == "translate":
            return ["fn", f, [A(), ["str", rng.choice(["ab", "abc", "01", "aab", ""])],
                              ["str", rng.choice(["AB", "x", "", "xyz"])]]]
        return ["fn", f, [] if rng.random() < 0.3 else [self.ns(ids, d - 1)[0]]]

    def gbool(self, ids, d):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.35:
            e, to = self.path(ids, 0, rng.choice([1, 1, 2]))
            q = rng.random()
            if q < 0.2:
                return e
            return ["bin", rng.choice(["=", "=", "!=", "<", "<=", ">", ">="]), e,
                    self.lit(to) if q < 0.75 else self.gnumlit()]
        if r < 0.6:
            return ["bin", rng.choice(["=", "!=", "<", "<=", ">", ">="]),
                    self.gany(ids, d - 1), self.gany(ids, d - 1)]
        if r < 0.72:
            return ["bin", rng.choice(["or", "and"]), self.gany(ids, d - 1, "bool"), self.gany(ids, d - 1, "bool")]
        f = rng.choice(["not", "boolean", "true", "false", "contains", "starts-with", "re-match", "derived-from",
                        "derived-from-or-self", "bit-is-set", "not"])
        if f in ("true", "false"):
            return ["fn", f, []]
        if f in ("not", "boolean"):
            return ["fn", f, [self.gany(ids, d - 1)]]
        if f in ("contains", "starts-with"):
            a = self.gany(ids, d - 1, "str")
            return ["fn", f, [a, rng.choice([["str", rng.choice(["a", "", "1", "fo", "x"])],
                                             self.gany(ids, d - 1, "str")])]]
        if f == "re-match":
            rx = ygen.gen_regex(rng)
            a = ["str", ygen.regex_sample(rng, rx)] if rng.random() < 0.6 else self.gany(ids, d - 1, "str")
            return ["fn", f, [a, ["re", rx]]]
        if f.startswith("derived"):
            c = [x for x in self.s.idents if self.s.mods.index(x[1]) <= self.s.mods.index(self.mod)]
            if not c:
                return ["fn", "true", []]
            i = rng.choice(c)
            return ["fn", f, [self.typed_path("identityref", ids, d), ["id", i[0], i[1]]]]
        return ["fn", f, [self.typed_path("bits", ids, d), ["str", rng.choice(["x", "y", "z", "w-1", "q"])]]]

    def gany(self, ids, d, want=None):
        rng = self.rng
        k = want if want and rng.random() < 0.6 else rng.choice(["ns", "ns", "num", "str", "bool"])
        if k == "ns":
            return self.ns(ids, d)[0]
        return {"num": self.gnum, "str": self.gstr, "bool": self.gbool}[k](ids, d)

    def expr(self, sid, d=3):
        self.cur = {sid}
        return self.gany({sid}, d)
