"""Driver of C15 (and C12, C20): random sets of modules as statement trees, and the
schema trees that the library builds from them."""
import re

from models import REV, load
from yangson.enumerations import ContentType
from yangson.exceptions import YangsonException
from yangson.schemanode import (AnyContentNode, CaseNode, ChoiceNode, ContainerNode, InputNode, LeafListNode, LeafNode,
                                ListNode, NotificationNode, OutputNode, RpcActionNode, SequenceNode)
from yangson.xpathast import LocationPath

CASE_CPU = 100
DATA = ("container", "leaf", "leaf-list", "list", "choice", "anydata", "anyxml")
OPS = ("rpc", "action", "notification")
ACM = "ietf-netconf-acm"
DENY = ("default-deny-all", "default-deny-write")


def subs(s, k):
    return [x for x in s[2] if x[0] == k]


def arg(s, k, d=None):
    x = subs(s, k)
    return x[0][1] if x else d


class Frame:
    """Names in use in one data parent."""

    def __init__(self):
        self.used = set()


class World:
    def __init__(self, rng, o):
        self.rng, self.o = rng, o
        n = rng.choice(o.get("mods", [1, 2, 3]))
        self.mods = [f"m{i}" for i in range(n)]
        self.imports = [m for m in self.mods[:-1] if rng.random() < .2]
        self.files, self.subm = [], {}
        for m in self.mods:
            self.files.append((m, m))
            for k in range(rng.choice([0, 0, 1, 2])):
                self.files.append((f"{m}s{k}", m))
                self.subm.setdefault(m, []).append(f"{m}s{k}")
        self.main = dict(self.files)
        self.px, self.acm = {}, {}
        for f, m in self.files:
            names = ["p", "q", "r", "m0", "m1", "m2"] + ([f] if rng.random() < .4 and f not in ("m0", "m1", "m2") else [])
            rng.shuffle(names)
            self.px[f] = {x: names.pop() for x in self.mods[:self.mods.index(m) + 1]}
            self.acm[f] = names.pop()
        self.feats = {m: [f"f{i}" for i in range(rng.randrange(1, 4))] for m in self.mods}
        self.on = {m: [x for x in self.feats[m] if rng.random() < .6] for m in self.mods}
        self.body = {f: [] for f, _ in self.files}
        self.cnt = self.ingrp = 0
        self.tagn = 0
        self.groupings = []         # visible at top level: dict(f, m, s, names, ops)
        self.typedefs = []          # (file, module, name, base)
        self.gidx, self.tdbase = {}, {}
        self.refined = set()        # ids of statements touched by refine
        self.keyleaves = set()      # ids of statements that must stay
        self.topframe = Frame()
        if o.get("acm"):
            for m in self.mods:
                self.body[m] += [["extension", x, []] for x in DENY]
        for m in self.mods:
            for x in self.feats[m]:
                self.body[rng.choice([f for f, mm in self.files if mm == m])].append(["feature", x, []])
        self.build()

    # -- small things
    def name(self):
        self.cnt += 1
        return f"n{self.cnt}"

    def tag(self):
        self.tagn += 1
        return f"'t{self.tagn}'"

    def ref(self, f, m, nm):
        """Reference in file f to the definition nm of module m."""
        if m == self.main[f] and self.rng.random() < .6:
            return nm
        return f"{self.px[f][m]}:{nm}"

    def nid(self, f, q):
        """Node identifier."""
        # in groupings, which module an own prefix stands for is left open
        if q[1] == self.main[f] and (self.ingrp or self.rng.random() < .6):
            return q[0]
        return f"{self.px[f][q[1]]}:{q[0]}"

    def resolve(self, n, name):
        """Qualified name that a node identifier in the definition of node n stands for."""
        p, c, loc = name.partition(":")
        if not c:
            return (p, n["q"][1])
        ms = [m for m, x in self.px[n["f"]].items() if x == p]
        return (loc, ms[0]) if ms else None

    def iff(self, f, p):
        rng = self.rng
        if rng.random() >= p * self.o.get("features", 1):
            return []
        res = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            def atom():
                m = rng.choice(list(self.px[f]))
                a = self.ref(f, m, rng.choice(self.feats[m]))
                return a if rng.random() < .7 else "not " + a
            t = atom()
            if rng.random() < .3:
                t = f"{t} {rng.choice(['and', 'or'])} {atom()}"
            res.append(["if-feature", t, []])
        return res

    def misc(self, f, p=.15, when=True):
        rng = self.rng
        r = self.iff(f, .2)
        if when and rng.random() < p:
            r.append(["when", self.tag(), []])
        if rng.random() < p:
            r.append(["description", f"d{rng.randrange(99)}", []])
        return r + self.status(.08)

    def status(self, p):
        rng = self.rng
        return [["status", rng.choice(["current", "deprecated", "obsolete"]), []]] if rng.random() < p else []

    def deny(self, f, kinds=2):
        """Statement for access control, or one of the same name from another module."""
        rng = self.rng
        if not self.o.get("acm") or rng.random() > .2:
            return []
        p = self.acm[f] if rng.random() < .75 else rng.choice(list(self.px[f].values()))
        return [[f"{p}:{rng.choice(DENY[:kinds])}", "", []]]

    def musts(self, p=.2):
        return [["must", self.tag(), []] for _ in range(self.rng.choice([1, 1, 2]))] if self.rng.random() < p else []

    def type_(self, f, scope):
        """(type statement, base)"""
        rng = self.rng
        k = rng.random()
        tds = [(x, n, b) for x in scope for n, b in x["typedefs"]]
        if tds and k < .2:
            x, n, b = rng.choice(tds)
            return ["type", n if rng.random() < .7 else f"{self.px[f][self.main[f]]}:{n}", []], b
        vis = [t for t in self.typedefs if t[1] in self.px[f]]
        if vis and k < .4:
            _, m, n, b = rng.choice(vis)
            if not any(n == y for x in scope for y, _ in x["typedefs"]):
                return ["type", self.ref(f, m, n), []], b
        b = rng.choice(["string", "int32", "boolean", "string", "int32", "enumeration", "bits"])
        if b == "enumeration":
            return ["type", b, [["enum", e, self.iff(f, .3) if i else []] for i, e in enumerate(["one", "two", "three", "four"])]], b
        if b == "bits":
            return ["type", b, [["bit", e, self.iff(f, .3) if i else []] for i, e in enumerate(["x", "y", "z"])]], b
        return ["type", b, []], b

    def deftext(self, b):
        rng = self.rng
        return {"string": lambda: rng.choice(["a", "b c", "7"]), "int32": lambda: rng.choice(["5", "-7", "0"]),
                "boolean": lambda: rng.choice(["true", "false"]), "enumeration": lambda: "one", "bits": lambda: "x"}[b]()

    def typedef(self, f, scope):
        n = f"T{self.name()}"
        t, b = self.type_(f, scope)
        ss = [t]
        self.tdbase[n] = b
        if self.rng.random() < .5:
            ss.append(["default", self.deftext(b), []])
        if self.rng.random() < .4:
            ss.append(["units", self.name(), []])
        return ["typedef", n, ss], n, b

    # -- data definitions.  cfg: True, False, None (operations), "g" (grouping)
    def leafish(self, f, scope, cfg, k, key=False):
        rng = self.rng
        t, b = self.type_(f, scope)
        if key and b in ("enumeration", "bits"):
            t, b = ["type", "string", []], "string"
        ss = [t]
        if not key:
            ss += self.misc(f)
            ss += self.conf(cfg, leaf=True)
            if k == "leaf":
                x = rng.random()
                if x < .25:
                    ss.append(["default", self.deftext(b), []])
                elif x < .45:
                    ss.append(["mandatory", rng.choice(["true", "true", "false"]), []])
            else:
                if rng.random() < .3:
                    ds = {"string": ["a", "b", "7"], "int32": ["5", "-7", "0"], "boolean": ["true", "false"],
                          "enumeration": ["one"], "bits": ["x"]}[b]
                    for d in rng.sample(ds, rng.randrange(1, len(ds) + 1)):
                        ss.append(["default", d, []])
                else:
                    ss += self.card()
        if rng.random() < .2:
            ss.append(["units", self.name(), []])
        ss += self.musts() + self.deny(f)
        rng.shuffle(ss)
        return ss

    def card(self):
        rng, ss = self.rng, []
        if rng.random() < .3:
            ss.append(["min-elements", str(rng.randrange(0, 3)), []])
        if rng.random() < .3:
            ss.append(["max-elements", rng.choice(["3", "12", "unbounded"]), []])
        if rng.random() < .3:
            ss.append(["ordered-by", rng.choice(["user", "system"]), []])
        return ss

    def conf(self, cfg, leaf=False):
        rng = self.rng
        if cfg is True and rng.random() < .15:
            return [["config", rng.choice(["true", "false"]), []]]
        if cfg is False and rng.random() < .1 or cfg == "g" and leaf and rng.random() < .15:
            return [["config", "false", []]]
        return []

    def data(self, f, scope, frame, cfg, d, ops, inside=""):
        """One data definition (or uses); inside: "choice" for a short-hand case."""
        rng = self.rng
        k = rng.random()
        if k < .17 and inside != "choice":
            u = self.uses(f, scope, frame, cfg, ops)
            if u:
                return u
        if d <= 0 or k < .45:
            kw = rng.choice(["leaf", "leaf", "leaf", "leaf-list", "anydata"])
            n = self.name()
            frame.used.add((self.main[f], n))
            if kw == "anydata":
                ss = self.misc(f) + self.musts() + self.conf(cfg, True) + self.deny(f)
                if rng.random() < .2:
                    ss.append(["mandatory", "true", []])
                return [rng.choice(["anydata", "anydata", "anyxml"]), n, ss]
            return [kw, n, self.leafish(f, scope, cfg, kw)]
        n = self.name()
        frame.used.add((self.main[f], n))
        if k < .66:
            ss = self.misc(f) + self.musts(.15) + self.deny(f)
            c = self.conf(cfg)
            cf = cfg if not c else c[0][1] == "true"
            s = ["container", n, ss]
            if rng.random() < .3:
                ss.append(["presence", "x", []])
            ss += c
            self.fill(f, s, scope, Frame(), cf, d - 1, ops)
        elif k < .83:
            ss = self.misc(f) + self.musts(.15) + self.card() + self.deny(f)
            c = self.conf(cfg)
            cf = cfg if not c else c[0][1] == "true"
            s = ["list", n, ss]
            ss += c
            fr = Frame()
            keys = []
            if cf in (True, "g") or rng.random() < .6:
                for _ in range(rng.choice([1, 1, 2])):
                    kn = self.name()
                    fr.used.add((self.main[f], kn))
                    kl = ["leaf", kn, self.leafish(f, scope, cf, "leaf", key=True)]
                    self.keyleaves.add(id(kl))
                    ss.append(kl)
                    keys.append(kn)
                ss.append(["key", (" " if rng.random() < .8 else "  ").join(keys), []])
            self.fill(f, s, scope, fr, cf, d - 1, ops and bool(keys))
            lv = [x for x in s[2] if x[0] == "leaf"]
            if lv and rng.random() < .4:
                first = rng.choice(lv)
                for _ in range(rng.choice([1, 2, 2, 3])):
                    us = rng.sample(lv, min(len(lv), rng.choice([1, 2])))
                    if rng.random() < .5:              # the same leaf first in several statements
                        us = [first] + [u for u in us if u is not first]
                    ps = []
                    for u in us:
                        self.keyleaves.add(id(u))
                        ps.append(self.nid(f, (u[1], self.main[f])))
                    for c2 in [x for x in s[2] if x[0] == "container"][:1]:
                        l2 = [x for x in c2[2] if x[0] == "leaf"]
                        if l2 and rng.random() < .5:
                            self.keyleaves.update([id(c2), id(l2[0])])
                            ps.append(f"{c2[1]}/{l2[0][1]}")
                    u = ["unique", " ".join(ps), []]
                    bare = lambda x: [y.split(":")[-1] for y in x[1].split()]
                    if bare(u) not in [bare(x) for x in subs(s, "unique")]:
                        s[2].append(u)
        else:
            ss = self.misc(f)
            s = ["choice", n, ss]
            c = self.conf(cfg)
            cf = cfg if not c else c[0][1] == "true"
            ss += c
            cases = []
            for _ in range(rng.choice([1, 2, 3])):
                if rng.random() < .6:
                    cn = self.name()
                    cs = ["case", cn, self.misc(f)]
                    for _ in range(rng.choice([0, 1, 1, 2])):
                        cs[2].append(self.data(f, scope, frame, cf, d - 1, False))
                    cases.append(cs)
                else:
                    cases.append(self.data(f, scope, frame, cf, d - 1, False, "choice"))
            ss += cases
            x = rng.random()
            if x < .3:
                ss.append(["default", self.nid(f, (rng.choice(cases)[1], self.main[f])), []])
            elif x < .5:
                ss.append(["mandatory", "true", []])
        if rng.random() < .5:
            rng.shuffle(s[2])
        return s

    def fill(self, f, s, scope, frame, cfg, d, ops):
        rng = self.rng
        here = {"typedefs": [], "groupings": []}
        if rng.random() < .2:
            t, n, b = self.typedef(f, [here] + scope)
            s[2].append(t)
            here["typedefs"].append((n, b))
        if rng.random() < .2 and d > 0:
            g = self.grouping(f, [here] + scope, d - 1)
            s[2].append(g["s"])
            here["groupings"].append(g)
        for _ in range(rng.choice([1, 2, 3])):
            s[2].append(self.data(f, [here] + scope, frame, cfg, d, ops))
        if ops and cfg is not None and rng.random() < .15:
            s[2].append(self.op(f, [here] + scope, frame, "action"))
        if ops and cfg is not None and rng.random() < .1:
            s[2].append(self.op(f, [here] + scope, frame, "notification"))

    def op(self, f, scope, frame, kw):
        rng = self.rng
        n = self.name()
        frame.used.add((self.main[f], n))
        s = [kw, n, self.misc(f, when=False) + self.deny(f, 1)]
        if kw == "notification":
            s[2] += self.musts()
            self.fill(f, s, scope, Frame(), None, 1, False)
        else:
            for io in ("input", "output"):
                if rng.random() < .6:
                    x = [io, "", self.musts()]
                    self.fill(f, x, scope, Frame(), None, 1, False)
                    s[2].append(x)
        return s

    def grouping(self, f, scope, d, top=False):
        rng = self.rng
        n = f"G{self.name()}"
        s = ["grouping", n, self.status(.15)]
        fr = Frame()
        ops = rng.random() < .15
        here = {"typedefs": [], "groupings": []}
        if rng.random() < .25:
            t, tn, b = self.typedef(f, [here] + scope)
            s[2].append(t)
            here["typedefs"].append((tn, b))
        if rng.random() < .2 and d > 0:
            g = self.grouping(f, [here] + scope, d - 1)
            s[2].append(g["s"])
            here["groupings"].append(g)
        self.ingrp += 1
        for _ in range(rng.choice([1, 2, 3])):
            s[2].append(self.data(f, [here] + scope, fr, "g", d, ops))
        if ops:
            s[2].append(self.op(f, [here] + scope, fr, "action"))
        self.ingrp -= 1
        self.gidx[n] = {"f": f, "m": self.main[f], "s": s, "n": n, "names": {x for _, x in fr.used}, "ops": ops, "top": top}
        return self.gidx[n]

    def uses(self, f, scope, frame, cfg, ops):
        rng = self.rng
        loc = [g for x in scope for g in x["groupings"]]
        vis = loc + [g for g in self.groupings if g["m"] in self.px[f]]
        rng.shuffle(vis)
        ns = self.main[f]
        for g in vis:
            if g["ops"] and not ops or any((ns, n) in frame.used for n in g["names"]):
                continue
            frame.used.update((ns, n) for n in g["names"])
            s = ["uses", g["n"] if not g["top"] and rng.random() < .7 else self.ref(f, g["m"], g["n"]), self.misc(f, .2)]
            s[2] = [x for x in s[2] if x[0] not in ("description", "status")]
            nodes = self.expand(g["f"], ns, g["s"][2])
            self.adjust(f, s, nodes, cfg)
            return s
        return None

    def paths(self, nodes, pre=()):
        for n in nodes:
            yield pre + (n["q"],), n
            yield from self.paths(n["ch"], pre + (n["q"],))

    def adjust(self, f, s, nodes, cfg):
        """Refine and augment substatements of a uses."""
        rng = self.rng
        ps = list(self.paths(nodes))
        rng.shuffle(ps)
        done = set()
        for p, n in ps[:rng.choice([0, 1, 2, 3])]:
            t = "/".join(self.nid(f, q) for q in p)
            if n["k"] in ("container", "list", "choice", "case", "input", "output") and rng.random() < .45:
                kid = self.augbody(f, n, None if n["op"] else "g", {(q["q"][1], q["q"][0]) for q in n["ch"]})
                s[2].append(["augment", t, kid])
            elif n["s"] is not None and n["k"] in ("container", "list", "choice", "leaf", "leaf-list", "anydata") and p not in done:
                done.add(p)
                r = self.refinement(f, n, cfg)
                if r:
                    self.refined.add(id(n["s"]))
                    s[2].append(["refine", t, r])

    def refinement(self, f, n, cfg):
        rng, st, k = self.rng, n["s"], n["k"]
        r = []
        if rng.random() < .3:
            r.append(["description", f"r{rng.randrange(99)}", []])
        if k != "choice":
            r += self.musts(.3)
        if id(st) not in self.keyleaves:
            if rng.random() < .2:
                r += self.iff(f, 1)
            if k in ("leaf", "leaf-list", "anydata") and not n["op"]:
                if cfg is True and rng.random() < .3:
                    r.append(["config", rng.choice(["true", "false"]), []])
                elif cfg in (False, "g") and rng.random() < .2:
                    r.append(["config", "false", []])
            hasd = bool(subs(st, "default"))
            mand = arg(st, "mandatory") == "true"
            b = n.get("b")
            x = rng.random()
            if k == "leaf" and id(st) not in self.refined:
                if x < .3 and not hasd:
                    r.append(["mandatory", rng.choice(["true", "false"]), []])
                elif x < .6:
                    if mand:
                        r.append(["mandatory", "false", []])
                    r.append(["default", self.deftext(b), []])
            if k == "leaf-list" and x < .4 and id(st) not in self.refined and not subs(st, "min-elements"):
                ds = {"string": ["a", "b", "c"], "int32": ["5", "8"], "boolean": ["true", "false"],
                      "enumeration": ["one"], "bits": ["x"]}[b]
                for d in rng.sample(ds, rng.randrange(1, len(ds) + 1)):
                    r.append(["default", d, []])
            elif k in ("list", "leaf-list") and x < .6 and not hasd and id(st) not in self.refined:
                r.append(["min-elements", str(rng.randrange(0, 2)), []])
                if rng.random() < .5:
                    r.append(["max-elements", rng.choice(["5", "unbounded"]), []])
            if k == "choice" and id(st) not in self.refined:
                cs = [c for c in n["ch"] if c["k"] == "case" and c["q"][1] == n["q"][1]]
                if x < .4 and cs and not mand:
                    r.append(["default", self.nid(f, rng.choice(cs)["q"]), []])
                elif x < .6 and not hasd:
                    r.append(["mandatory", rng.choice(["true", "false"]), []])
            if k == "anydata" and x < .3:
                r.append(["mandatory", rng.choice(["true", "false"]), []])
        if k == "container" and rng.random() < .3:
            r.append(["presence", "y", []])
        rng.shuffle(r)
        return r

    def augbody(self, f, n, cfg, taken):
        """Substatements of an augment of node n."""
        rng = self.rng
        ns = self.main[f]
        body = self.iff(f, .2) + self.status(.2)
        if rng.random() < .3:
            body.append(["when", self.tag(), []])
        fr = Frame()
        saved, self.groupings = self.groupings, []      # (a grouping might already be used in the target)
        for _ in range(rng.choice([1, 1, 2])):
            if n["k"] == "choice" and rng.random() < .5:
                cs = ["case", self.name(), self.misc(f)]
                for _ in range(rng.choice([0, 1, 2])):
                    cs[2].append(self.data(f, [], fr, cfg, 1, False))
                body.append(cs)
            else:
                k = self.data(f, [], fr, cfg, 1, False, "choice" if n["k"] == "choice" else "")
                # the same name as a sibling from another module
                sib = [c["q"][0] for c in n["ch"] if c["q"][1] != ns and (ns, c["q"][0]) not in taken]
                if sib and n["k"] not in ("choice", "case") and k[0] in ("leaf", "container", "leaf-list") and rng.random() < .4:
                    x = rng.choice(sib)
                    taken.add((ns, x))
                    k[1] = x
                body.append(k)
        self.groupings = saved
        return body

    # -- expansion (to find targets for augments and deviations; not an oracle)
    def expand(self, f, ns, stmts, op=False, choice=False, cfg=True):
        res = []
        for s in stmts:
            k = s[0]
            if k == "uses":
                gg = self.gidx[s[1].rpartition(":")[2]]
                sub = self.expand(gg["f"], ns, gg["s"][2], op, cfg=cfg)
                for a in subs(s, "augment"):
                    self.graft(sub, f, a, ns)
                for r in subs(s, "refine"):
                    t = self.find(sub, [x.rpartition(":")[2] for x in r[1].split("/")])
                    if t:
                        t["ref"] = True
                res += sub
            elif k in DATA or k in OPS or k == "case":
                c = False if arg(s, "config") == "false" else cfg
                n = {"q": (s[1], ns), "k": "rpc" if k == "action" else "anydata" if k == "anyxml" else k, "s": s,
                     "ch": [], "op": op or k in OPS, "cfg": c, "pcfg": cfg, "ref": False, "f": f}
                if k in ("leaf", "leaf-list"):
                    t = subs(s, "type")[0][1].rpartition(":")[2]
                    n["b"] = self.tdbase.get(t, t)
                elif k in ("rpc", "action"):
                    for io in ("input", "output"):
                        x = subs(s, io)
                        n["ch"].append({"q": (io, ns), "k": io, "s": None, "op": True, "cfg": c, "pcfg": c, "ref": True, "f": f,
                                        "ch": self.expand(f, ns, [y for z in x for y in z[2]], True)})
                else:
                    n["ch"] = self.expand(f, ns, s[2], op or k in OPS, k == "choice", c)
                if choice and k != "case":
                    n = {"q": n["q"], "k": "case", "s": None, "ch": [n], "op": op, "cfg": c, "pcfg": c, "ref": True, "f": f}
                res.append(n)
        return res

    def graft(self, nodes, f, a, ns):
        t = self.find(nodes, [x.rpartition(":")[2] for x in a[1].split("/") if x])
        if t is not None:
            t["ch"] += self.expand(f, ns, a[2], t["op"], t["k"] == "choice", t["cfg"])
        return t is not None

    def find(self, nodes, path):
        for n in nodes:
            if n["q"][0] == path[0]:
                r = n if len(path) == 1 else self.find(n["ch"], path[1:])
                if r:
                    return r
        return None

    # -- whole world
    def build(self):
        rng, o = self.rng, self.o
        tops = []
        for f, m in self.files:
            for _ in range(rng.choice([0, 1])):
                t, n, b = self.typedef(f, [])
                self.body[f].append(t)
                self.typedefs.append((f, m, n, b))
            for _ in range(rng.choice([0, 1, 2])):
                g = self.grouping(f, [], 2, top=True)
                self.body[f].append(g["s"])
                self.groupings.append(g)
            for _ in range(rng.choice([1, 2])):
                x = rng.random()
                if x < .15:
                    s = self.op(f, [], self.topframe, rng.choice(["rpc", "notification"]))
                else:
                    s = self.data(f, [], self.topframe, True, o.get("depth", 3), False)
                self.body[f].append(s)
        root = []
        for f, m in self.files:
            if m not in self.imports:
                root += self.expand(f, m, self.body[f])
        # augments, also of nodes that other augments define
        for _ in range(rng.choice([0, 1, 2, 4, 6])):
            f, m = rng.choice(self.files)
            ps = [(p, n) for p, n in self.paths(root) if n["k"] in ("container", "list", "choice", "case", "input", "output",
                                                                   "notification")
                  and all(q[1] in self.px[f] for q in p)]
            if not ps or m in self.imports and rng.random() < .7:
                continue
            # prefer deep targets
            p, n = max(rng.sample(ps, min(len(ps), 2)), key=lambda x: len(x[0]))
            body = self.augbody(f, n, None if n["op"] else n["cfg"], {(q["q"][1], q["q"][0]) for q in n["ch"]})
            if n["k"] in ("container", "list") and not n["op"] and rng.random() < .1 and self.topops(p, root) and (
                    n["k"] == "container" or subs(n["s"], "key")):
                body.append(self.op(f, [], Frame(), rng.choice(["action", "notification"])))
            a = ["augment", "/" + "/".join(self.nid(f, q) for q in p), body]
            self.body[f].append(a)
            if m not in self.imports:
                n["ch"] += self.expand(f, m, body, n["op"], n["k"] == "choice", n["cfg"])
        # deviations
        used = set()
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            f, m = rng.choice(self.files)
            ps = [(p, n) for p, n in self.paths(root) if all(q[1] in self.px[f] for q in p) and p not in used
                  and n["k"] not in ("input", "output")]
            if not ps:
                continue
            p, n = rng.choice(ps)
            ds = self.deviates(f, n)
            if ds:
                used.add(p)
                self.body[f].append(["deviation", "/" + "/".join(self.nid(f, q) for q in p), ds])
        for b in self.body.values():
            rng.shuffle(b)
        self.rename()

    def topops(self, p, root):
        """May an action be put there (no operation or keyless list above)?"""
        nodes = root
        for q in p:
            n = next(x for x in nodes if x["q"] == q)
            if n["op"] or n["k"] == "list" and not (n["s"] and subs(n["s"], "key")) or n["k"] in ("case", "choice"):
                return False
            nodes = n["ch"]
        return True

    def deviates(self, f, n):
        rng, st, k = self.rng, n["s"], n["k"]
        pinned = st is None or id(st) in self.keyleaves
        if k == "case":
            return []
        if not pinned and rng.random() < .2 and not self.holds_pinned(n):
            return [["deviate", "not-supported", []]]
        if st is None:
            return []
        add, rep, dele = [], [], []
        fresh = not n["ref"] and not pinned and k not in OPS
        hasd, hasm = subs(st, "default"), arg(st, "mandatory")
        if k in ("leaf", "leaf-list", "list", "container", "anydata", "notification") and rng.random() < .4:
            add += self.musts(1)
        if subs(st, "must") and k != "rpc" and rng.random() < .5:
            dele.append(rng.choice(subs(st, "must")))
        if k == "list" and subs(st, "unique"):
            u = rng.choice(subs(st, "unique"))
            ids = [[self.resolve(n, y) for y in x.split("/")] for x in u[1].split()]
            if all(q and q[1] in self.px[f] for x in ids for q in x):
                dele.append(["unique", " ".join("/".join(self.nid(f, q) for q in x) for x in ids), []])
        if k in ("leaf", "leaf-list"):
            if subs(st, "units"):
                rng.choice([lambda: dele.append(["units", arg(st, "units"), []]),
                            lambda: rep.append(["units", self.name(), []])])()
            elif rng.random() < .4:
                add.append(["units", self.name(), []])
        if fresh:
            x = rng.random()
            if k == "leaf":
                if hasd:
                    if x < .3:
                        dele.append(hasd[0])
                    elif x < .6:
                        rep.append(["default", self.deftext(n["b"]), []])
                elif hasm != "true" and x < .3:
                    add.append(["default", self.deftext(n["b"]), []])
                elif hasm and x < .6:
                    rep.append(["mandatory", "true" if hasm == "false" else "false", []])
                elif not hasm and x < .6:
                    add.append(["mandatory", rng.choice(["true", "false"]), []])
                if x > .7 and n["b"] not in ("enumeration", "bits"):
                    rep.append(["type", "string", []])
            if k == "leaf-list" and hasd and x < .6:
                ds = [d for d in hasd]
                if x < .3:
                    dele += rng.sample(ds, rng.randrange(1, len(ds) + 1))
                elif x < .45:
                    rep.append(["default", self.deftext(n["b"]), []])
                elif n["b"] in ("string", "int32"):
                    add.append(["default", "99", []])
            if k == "choice":
                cs = [c for c in n["ch"] if c["k"] == "case" and c["q"][1] in self.px[f]]
                if hasd and x < .3:
                    # the argument names the same case
                    q = (hasd[0][1].rpartition(":")[2], n["q"][1])
                    dele.append(["default", self.nid(f, q), []])
                elif hasd and x < .6:
                    rep.append(["default", self.nid(f, rng.choice(cs)["q"]), []])
                elif not hasd and hasm != "true" and x < .4:
                    add.append(["default", self.nid(f, rng.choice(cs)["q"]), []])
                elif hasm and x < .7:
                    rep.append(["mandatory", "false", []])
            if k in ("list", "leaf-list") and not hasd and x < .7:
                (rep if subs(st, "min-elements") else add).append(["min-elements", str(rng.randrange(0, 3)), []])
                (rep if subs(st, "max-elements") else add).append(["max-elements", rng.choice(["4", "unbounded"]), []])
            if k in ("leaf", "leaf-list", "anydata") and not n["op"] and rng.random() < .4:
                v = rng.choice(["true", "false"]) if n["pcfg"] else "false"
                (rep if subs(st, "config") else add).append(["config", v, []])
        res = [["deviate", a, b] for a, b in (("add", add), ("replace", rep), ("delete", dele)) if b]
        rng.shuffle(res)
        if rng.random() < .2:       # split
            res = [["deviate", d[1], [x]] for d in res for x in d[2]]
        return res

    def holds_pinned(self, n):
        return n["k"] in ("list",) and False or any(c["s"] is not None and id(c["s"]) in self.keyleaves or self.holds_pinned(c)
                                                    for c in n["ch"]) and n["k"] != "list"

    def rename(self):
        """Names of groupings and typedefs: unique in each module only."""
        names = {}

        def collect(m, ss):
            for s in ss:
                if s[0] in ("grouping", "typedef"):
                    k = sum(1 for x in names.values() if x[0] == (m, s[0]))
                    names[s[1]] = ((m, s[0]), f"{s[0][0]}{k}")
                collect(m, s[2])

        def apply(ss):
            for s in ss:
                if s[0] in ("grouping", "typedef", "uses", "type"):
                    p, c, loc = s[1].rpartition(":")
                    if loc in names:
                        s[1] = p + c + names[loc][1]
                apply(s[2])
        for f, m in self.files:
            collect(m, self.body[f])
        seen = set()

        def once(ss):       # (statements may be shared)
            for i, s in enumerate(ss):
                ss[i] = [s[0], s[1], [list(x) for x in s[2]]]
                once(ss[i][2])
        for f, _ in self.files:
            once(self.body[f])
            apply(self.body[f])

    def texts(self):
        res = {}
        for f, m in self.files:
            t = []
            if f == m:
                t += [f"module {f} {{", "  yang-version 1.1;", f'  namespace "urn:{f}";', f"  prefix {self.px[f][m]};"]
            else:
                t += [f"submodule {f} {{", "  yang-version 1.1;", f"  belongs-to {m} {{ prefix {self.px[f][m]}; }}"]
            imp = [f"  import {x} {{ prefix {self.px[f][x]}; }}" for x in self.mods[:self.mods.index(m)]]
            if self.o.get("acm"):
                imp.append(f"  import {ACM} {{ prefix {self.acm[f]}; }}")
            self.rng.shuffle(imp)
            t += imp + [f"  include {x};" for x in self.subm.get(m, []) if x != f] + [f"  revision {REV};"]
            res[f] = "\n".join(t) + "\n" + "".join(show(s, "  ") for s in self.body[f]) + "}\n"
        if self.o.get("acm"):
            res[ACM] = f"module {ACM} {{ namespace 'urn:{ACM}'; prefix nacm; revision {REV};" + "".join(
                f" extension {x};" for x in DENY) + " }"
        return res

    def files_event(self):
        return [{"n": f, "m": m, "ft": self.on[m], "impl": m not in self.imports, "st": self.body[f],
                 "px": [[p, x] for x, p in self.px[f].items()] + ([[self.acm[f], ACM]] if self.o.get("acm") else [])} for f, m in self.files]


def show(s, ind):
    a = f' "{s[1]}"' if s[1] or s[0] not in ("input", "output") and ":" not in s[0] else ""
    if not s[2]:
        return f"{ind}{s[0]}{a} {{}}\n" if s[0] in ("input", "output") else f"{ind}{s[0]}{a};\n"
    return f"{ind}{s[0]}{a} {{\n" + "".join(show(x, ind + "  ") for x in s[2]) + ind + "}\n"


# -- the library's schema
def cond(x):
    t = re.findall(r"t\d+", str(x))
    return f"'{t[0]}'" if t else str(x)


def route(x, ns):
    if isinstance(x, LocationPath):
        return route(x.left, ns) + route(x.right, ns)
    return [[x.qname[0], x.qname[1] or ns]]


def kind(n):
    for c, k in ((ContainerNode, "container"), (LeafNode, "leaf"), (LeafListNode, "leaf-list"), (ListNode, "list"),
                 (ChoiceNode, "choice"), (CaseNode, "case"), (RpcActionNode, "rpc"), (NotificationNode, "notification"),
                 (InputNode, "input"), (OutputNode, "output")):
        if isinstance(n, c):
            return k
    return n.__class__.__name__[:-4].lower()


def observe(node, gw=(), op=False):
    res = []
    for c in node.children:
        if c.name is None:
            res += observe(c, gw + ((cond(c.when),) if c.when else ()), op)
            continue
        k = kind(c)
        o = op or k in ("rpc", "notification")
        r = {"n": c.name, "ns": c.ns, "k": k, "cf": "-" if o else "true" if c.config else "false",
             "mand": bool(getattr(c, "_mandatory", False)), "pres": bool(getattr(c, "presence", False)),
             "min": getattr(c, "min_elements", 0), "max": -1, "usr": bool(getattr(c, "user_ordered", False)), "df": [],
             "un": "", "keys": [], "uniq": [], "must": [cond(m.expression) for m in c.must],
             "when": [cond(c.when)] if c.when else [], "gw": list(gw), "b": "", "en": [], "desc": c.description or "",
             "sta": c.status.name, "deny": c.default_deny.name if hasattr(c, "default_deny") else "none"}
        if isinstance(c, SequenceNode) and c.max_elements is not None:
            r["max"] = c.max_elements
        if isinstance(c, (LeafNode, LeafListNode)):
            d = c.default
            r["df"] = [] if d is None else [c.type.canonical_string(x) for x in (d if k == "leaf-list" else [d])]
            r["un"] = c.units or ""
            r["b"] = c.type.yang_type()
            r["en"] = list(getattr(c.type, "enum", None) or getattr(c.type, "bit", None) or [])
        if isinstance(c, ChoiceNode) and c.default_case:
            r["df"] = [list(c.default_case)]
        if isinstance(c, ListNode):
            r["keys"] = [list(q) for q in c.keys]
            r["uniq"] = [[route(u, c.ns) for u in us] for us in c.unique]
        r["ch"] = observe(c, (), o) if hasattr(c, "children") else []
        res.append(r)
    return res


def schemas(rng, payload):
    evs = []
    for _ in range(payload["worlds"]):
        w = World(rng, payload.get("opts", {}))
        texts = w.texts()
        e = {"op": "model", "files": w.files_event(), "texts": texts}
        order = list(w.mods)
        rng.shuffle(order)
        try:
            if ACM in texts:
                order.insert(rng.randint(0, len(order)), ACM)
            dm = load(texts, features=w.on, submodules=w.subm, imports=w.imports + [ACM], order=order)
            e["out"] = ["ok", observe(dm.schema)]
        except RecursionError:
            raise
        except Exception as ex:
            e["out"] = ["err", f"{type(ex).__name__}: {ex}"]
        evs.append(e)
    return evs
