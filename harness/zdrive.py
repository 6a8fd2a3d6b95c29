"""Random histories of instance-node operations, recorded as events of
spec/TraceZipper.tla."""
import copy

import ygen
from values import proj, cook
from yangson.enumerations import ContentType, ValidationScope
from yangson.instance import MemberName, EntryIndex
from yangson.instroute import InstanceRoute

CASE_CPU = 120


def obs(node, base=()):
    """Observation of a node.  An isolated instance (and what is reached from it)
    is reported as part of a tree that has nothing besides it: base is its path,
    entries being number 1."""
    path = [p if isinstance(p, str) else p + 1 for p in node.path]
    top, jp = proj(node.top().value), node.json_pointer()
    if base:
        for p in reversed(base):
            top = ["a", [top]] if p == 1 else ["o", [[p, top]]]
        jp = ("" if path else jp[1:]).join(
            ["".join("/" + ("0" if p == 1 else p) for p in base), jp if path else ""])
    return {"val": proj(node.value), "path": list(base) + path, "top": top,
            "jp": jp, "name": str(node.name)}


class Hist:
    def __init__(self, rng, sch, dm, weights, hist):
        self.rng, self.s, self.dm = rng, sch, dm
        self.w = weights
        self.g = ygen.InstGen(rng, sch, p_opt=0.55, max_entries=rng.choice([2, 3, 7]))
        self.heap = []
        self.args = []
        self.ev = []
        self.hist = hist

    # -- abstract position --------------------------------------------------
    def sid(self, o):
        """(schema id, abstract value, is entry) from an observation."""
        i, v = 1, o["top"]
        ent = False
        for p in o["path"]:
            if v[0] == "o":
                i = self.s.kid(i, p)
                v = dict(map(tuple_, v[1]))[p]
                ent = False
            else:
                v = v[1][p - 1]
                ent = True
        return i, v, ent

    def start(self):
        t = self.g.tree()
        inst = self.dm.from_raw(ygen.raw_tree(self.s, 1, t))
        o = obs(inst)
        self.heap.append((inst, o, ()))
        self.ev.append({"op": "load", "schema": self.s.to_tla(), "tree": ygen.emit(t),
                        "obs": o, "hist": self.hist})

    def changed(self):
        res = []
        for k, (n, o, b) in enumerate(self.heap):
            try:
                if obs(n, b) != o:
                    res.append(k + 1)
            except Exception:
                res.append(k + 1)
        return res

    def argchanged(self):
        for a, snap, raw in self.args:
            if raw:
                if a != snap:
                    return True
            elif proj(a) != snap:
                return True
        return False

    def arg(self, sid, v, entry=False):
        """Argument value, cooked or raw."""
        raw = self.rng.random() < 0.5
        if raw:
            a = ygen.raw_tree(self.s, sid, v)
            self.args.append((a, copy.deepcopy(a), True))
        else:
            a = cook(ygen.emit(v))
            self.args.append((a, proj(a), False))
        return a, raw

    def step(self):
        for _ in range(8):
            n = len(self.ev)
            if not self.try_step():
                return False
            if len(self.ev) > n:
                break
        return True

    def try_step(self):
        rng, s = self.rng, self.s
        k = rng.choice([len(self.heap) - 1, rng.randrange(len(self.heap))])
        ents = [j for j, (_, o, _b) in enumerate(self.heap) if o["path"] and isinstance(o["path"][-1], int)]
        if ents and rng.random() < 0.25:
            k = rng.choice(ents)
        node, o, base = self.heap[k]
        try:
            sid, v, ent = self.sid(o)
        except (KeyError, IndexError):
            return False
        if not sid:
            return False
        kind = s[sid]["k"]
        op = rng.choices(list(self.w), list(self.w.values()))[0]
        if ent and rng.random() < 0.3:
            op = rng.choice(["insa", "insb", "next", "prev", "insa"])
        elif v[0] == "a" and rng.random() < 0.3:
            op = "ent"
        if op not in ("defaults", "merge", "other") and o["path"] and rng.random() < ORPHAN / 100:
            op = "orphan"
        atbase = bool(base) and len(o["path"]) == len(base)
        e = {"op": op, "n": k + 1, "hist": self.hist}
        if kind == "anydata" and op in ("get", "put"):
            return True         # the contents of anydata have no schema
        call = None
        kids = s.data_kids(sid) if kind in ("root", "container", "list") else []

        def somename():
            r = rng.random()
            if v[0] == "o" and v[1] and r < 0.6:
                nm = rng.choice(v[1])[0]
                c = s.kid(sid, nm)
                return s[c]["md"] + ":" + s[c]["nm"] if c and rng.random() < 0.2 else nm
            if kids and r < 0.9:
                c = rng.choice(kids)
                return s[c]["md"] + ":" + s[c]["nm"] if rng.random() < 0.2 else s.iname(c)
            return rng.choice(["nosuch", "m1:nosuch"])
        if op == "get":
            e["name"] = somename()
            # a name unknown to the schema
            if v[0] == "o" and not known(s, sid, e["name"]):
                e["op"] = "getx"
            call = lambda: node[e["name"]]
        elif op == "ent":
            if v[0] == "o":
                return True
            n = len(v[1]) if v[0] == "a" else 2
            e["idx"] = rng.randint(-n - 1, n)
            if n and rng.random() < 0.8:
                e["idx"] = rng.choice([rng.randint(-n, n - 1), n - 1 - n * rng.randint(0, 1)])
            call = lambda: node[e["idx"]]
        elif op == "put":
            c = rng.choice(kids) if kids and rng.random() < 0.9 else 0
            if c:
                x = self.g.value(c)
                if x is None:
                    return True
                nm = s.iname(c)
                if rng.random() < 0.2:
                    nm = s[c]["md"] + ":" + s[c]["nm"]
                a, raw = self.arg(c, x)
            else:
                nm, x = "nosuch", ["i", 1]
                a, raw = 1, rng.random() < 0.5
            e.update(name=nm, val=ygen.emit(x), raw=raw)
            call = lambda: node.put_member(nm, a, raw=raw)
        elif op == "delm":
            e["name"] = somename()
            call = lambda: node.delete_item(e["name"])
        elif op == "dele":
            n = len(v[1]) if v[0] == "a" else 2
            e["idx"] = rng.randint(-n, max(n - 1, 0)) if rng.random() < 0.8 else rng.randint(-n - 2, n + 2)
            call = lambda: node.delete_item(e["idx"])
        elif op == "up":
            call = node.up
        elif op == "top":
            call = node.top
        elif op == "orphan":
            sn = node.schema_node
            if kind == "anydata" or ent and kind != "list":
                return True
            base = tuple(1 if isinstance(p, int) else p for p in o["path"])
            rv = node.raw_value()
            call = lambda: sn.orphan_entry(rv) if ent else sn.orphan_instance(rv)
        elif op == "sib":
            if ent or not o["path"]:
                return True
            pi = self.sid({"top": o["top"], "path": o["path"][:-1]})
            pn = [nm for nm, _ in pi[1][1]]
            r = rng.random()
            nm = rng.choice(pn) if r < 0.6 else s.iname(rng.choice(s.data_kids(pi[0]))) if r < 0.9 else "nosuch"
            c = s.kid(pi[0], nm)
            if c and rng.random() < 0.2:
                nm = s[c]["md"] + ":" + s[c]["nm"]
            e["name"] = nm
            call = lambda: node.sibling(nm)
        elif op in ("next", "prev", "insb", "insa"):
            if not ent or atbase and op in ("insb", "insa"):
                return True
            if op == "next":
                call = node.next
            elif op == "prev":
                call = node.previous
            else:
                x = self.g.obj(sid) if kind == "list" else self.g.scalar(sid)
                if x is None:
                    return True
                a, raw = self.arg(sid, x)
                e.update(val=ygen.emit(x), raw=raw)
                call = (lambda: node.insert_before(a, raw=raw)) if op == "insb" else \
                       (lambda: node.insert_after(a, raw=raw))
        elif op == "upd":
            x = self.whole(sid, kind, ent)
            if x is None:
                return True
            a, raw = self.arg(sid, x)
            e.update(val=ygen.emit(x), raw=raw)
            call = lambda: node.update(a, raw=raw)
        elif op == "merge":
            x = self.mergeval(sid, v, ent)
            if x is None or not self.mergeable(sid, v, ent) or \
                    not self.mergeable(sid, ygen.emit(x), ent):
                return True
            a, raw = self.arg(sid, x)
            e.update(val=ygen.emit(x), raw=raw)
            call = lambda: node.merge(a, raw=raw)
        elif op == "look":
            keys = {}
            leaves = [c for c in kids if s[c]["k"] == "leaf"]
            if v[0] == "a" and v[1] and kind == "list" and rng.random() < 0.7:
                en = dict(map(tuple_, rng.choice(v[1])[1]))
                pool = [c for c in leaves if s.iname(c) in en]
                for c in rng.sample(pool, min(len(pool), rng.randint(1, 2))):
                    keys[c] = ygen.untrace(en[s.iname(c)])
            else:
                for c in rng.sample(leaves, min(len(leaves), rng.randint(0, 2))):
                    x = self.g.scalar(c)
                    if x is not None:
                        keys[c] = x
            raw = rng.random() < 0.4 and v[0] == "a" and kind == "list"
            ks = {s.iname(c): (ygen.raw_tree(s, c, x) if raw else cook(ygen.emit(x)))
                  for c, x in keys.items()}
            e["keys"] = [[s.iname(c), ygen.emit(x)] for c, x in keys.items()]
            call = lambda: node.look_up(raw, **ks)
        elif op == "iter":
            def call():
                it = iter(node)
                if v[0] == "a":
                    return ["entries", [en.index for en in it], None]
                return ["names", [x for x in it], None]
        elif op == "goto":
            rel, q, w, j = [], list(o["path"]), v, sid
            while w[0] in "oa" and w[1] and (not rel or rng.random() < 0.7):
                if w[0] == "o":
                    nm, w = rng.choice(w[1])
                    j = s.kid(j, nm)
                    if not j:
                        return True
                    p, c, loc = nm.partition(":")
                    rel.append(MemberName(loc, p) if c else MemberName(p, None))
                    q.append(nm)
                    if s[j]["k"] == "anydata":
                        break
                else:
                    i = rng.randrange(len(w[1]))
                    w = w[1][i]
                    rel.append(EntryIndex(i))
                    q.append(i + 1)
            e["path"] = q
            call = lambda: node.goto(InstanceRoute(rel))
        elif op == "defaults":
            e["op"] = "adopt"
            call = lambda: node.add_defaults(rng.choice([None, ContentType.config, ContentType.all]))
        else:
            e["op"] = "other"
            e["what"] = self.other(node, o)
        out = ["nothing"]
        if call is not None:
            try:
                r = call()
                if isinstance(r, list) and r and r[0] in ("names", "entries"):
                    out = r[:2]
                else:
                    no = obs(r, base)
                    out = ["node"]
                    e["obs"] = no
                    self.heap.append((r, no, base))
            except Exception as ex:
                out = ["err", type(ex).__name__]
                if e["op"] == "adopt":
                    e["op"] = "other"
        e["out"] = out
        ch = self.changed()
        e["changed"] = ch
        e["argchanged"] = self.argchanged()
        self.ev.append(e)
        if out[0] == "err" and e["op"] not in ("other",):
            pass
        return not ch and not e["argchanged"]

    def whole(self, sid, kind, ent):
        if kind == "list" and ent:
            return self.g.obj(sid)
        if kind == "leaf-list" and ent:
            return self.g.scalar(sid)
        if kind == "root":
            return self.g.tree()
        return self.g.value(sid)

    # -- merging -------------------------------------------------------------
    def mergeval(self, i, v, ent):
        """A value to be merged into v (trace form) at schema node i."""
        rng, s = self.rng, self.s
        k = s[i]["k"]
        if k in ("leaf", "anydata") or v[0] not in "oa":
            return self.whole(i, k, ent)
        if v[0] == "o":
            fresh = self.g.obj(i)[1]
            keep = {}
            old = dict(map(tuple_, v[1]))
            keys = {s.iname(c) for c in s[i]["ky"]}
            for nm in list(fresh) + [x for x in old if x not in fresh]:
                if nm in keys and nm in old and ent:
                    keep[nm] = ygen.untrace(old[nm])
                elif nm in old:
                    c = s.kid(i, nm)
                    if rng.random() < 0.6 and c:
                        x = self.mergeval(c, old[nm], False)
                        if x is not None:
                            keep[nm] = x
                elif rng.random() < 0.7 or nm in keys:
                    keep[nm] = fresh[nm]
            return ["o", keep]
        res = []
        pool = list(v[1])
        rng.shuffle(pool)
        for x in pool:
            if rng.random() < 0.5:
                if k == "list":
                    y = self.mergeval(i, x, True)
                    if not s[i]["ky"]:
                        y = rng.choice([y, ygen.untrace(x)])
                    res.append(y)
                else:
                    res.append(ygen.untrace(x))
        w = self.g.value(i)
        if w is not None and w[0] == "a":
            res += w[1][:2]
        rng.shuffle(res)
        return ["a", res]

    def mergeable(self, i, v, ent):
        s = self.s
        if v[0] == "o":
            if s[i]["k"] == "anydata":
                return True
            return all(s.kid(i, n) and self.mergeable(s.kid(i, n), x, False) for n, x in v[1])
        if v[0] == "a" and s[i]["k"] == "list":
            ks = [s.iname(c) for c in s[i]["ky"]]
            seen = []
            for x in v[1]:
                d = dict(map(tuple_, x[1]))
                if any(k not in d for k in ks):
                    return False
                t = [d[k] for k in ks]
                if ks and t in seen:
                    return False
                seen.append(t)
                if not self.mergeable(i, x, True):
                    return False
        return True

    # -- operations without node results ---------------------------------------
    def other(self, node, o):
        rng = self.rng
        what = rng.choice(["validate", "tag", "raw", "xml", "route", "xpath", "str", "hash",
                           "peek", "find"])
        ct = rng.choice([ContentType.config, ContentType.all])
        try:
            if what == "validate":
                node.validate(rng.choice(list(ValidationScope)), ct)
            elif what == "tag":
                node.add_defaults(ct, tag=True)
            elif what == "raw":
                node.raw_value()
            elif what == "xml":
                node.to_xml()
            elif what == "route":
                node.top().goto(node.instance_route())
            elif what == "peek":
                node.top().peek(node.instance_route())
            elif what == "str":
                str(node)
            elif what == "hash":
                hash(node.value)
            elif what == "find":
                self.dm.parse_instance_id(str(node.instance_route()))
            else:
                from yangson.xpathparser import XPathParser
                from yangson.xpathast import XPathContext
                from yangson.statement import ModuleParser       # NOQA
                from yangson.schemadata import SchemaContext
                sd = self.dm.schema_data
                mid = (self.s.mods[0], "2024-01-01")
                txt = rng.choice(["//*", "..//*", "count(.//*)", "ancestor::*",
                                  "descendant-or-self::node()", "string(.)", "../*[1]"])
                p = XPathParser(txt, SchemaContext(sd, mid[0], mid))
                p.parse().evaluate(node)
        except Exception as e:
            return what + " " + type(e).__name__
        return what


def tuple_(p):
    return (p[0], p[1])


def known(s, sid, name):
    return any(name in (s.iname(c), s[c]["md"] + ":" + s[c]["nm"]) for c in s.data_kids(sid))


FULL = dict(get=14, ent=9, put=8, delm=3, dele=3, up=6, top=2, sib=4, next=4, prev=4,
            insb=4, insa=4, upd=5, merge=8, look=3, iter=2, goto=5, defaults=2, other=5)
ORPHAN = 4      # percentage of steps that make an isolated instance
NAV = dict(FULL, merge=0, defaults=0, other=0)
MERGE = dict(get=5, ent=3, up=2, put=2, goto=8, insb=1, delm=1, merge=18, other=0)


def histories(rng, payload):
    """Several histories on one random schema."""
    weights = {"full": FULL, "nav": NAV, "merge": MERGE}[payload["weights"]]
    o = dict(payload.get("opts", {}))
    sch = ygen.gen_schema(rng, **o)
    dm = sch.load()
    evs = []
    for h in range(payload["hists"]):
        hs = Hist(rng, sch, dm, weights, f"{rng.random()}")
        hs.start()
        for _ in range(payload["steps"]):
            if not hs.step():
                break
        evs += hs.ev
    return evs
