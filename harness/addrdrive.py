"""Driver of C20: lookups of nodes in random schemas, and renderings of them."""
import json

from asmdrive import World
from models import load
from yangson.exceptions import YangsonException
from yangson.instance import EntryIndex, InstanceRoute, MemberName
from yangson.schemanode import DataNode, InternalNode, NotificationNode, RpcActionNode

CASE_CPU = 100


def real(node):
    """Named schema nodes below a node."""
    for c in node.children:
        if c.name is not None:
            yield c
        if hasattr(c, "children"):
            yield from real(c)


def route(n):
    r = []
    while n.parent is not None:
        if n.name is not None:
            r.insert(0, [n.name, n.ns])
        n = n.parent
    return r


class Queries:
    def __init__(self, rng, dm):
        self.rng, self.dm = rng, dm
        self.nodes = list(real(dm.schema))
        self.routes = {id(n): route(n) for n in self.nodes}
        self.routes[id(dm.schema)] = []
        self.names = [[n.name, n.ns] for n in self.nodes] or [["x", "m0"]]
        self.mods = sorted({n.ns for n in self.nodes} | {"m0", "zz"})
        self.qs = []

    def enc(self, n):
        if n is None:
            return ["none"]
        return ["ok", self.routes[id(n)]] if id(n) in self.routes else ["ok", [["?", str(n)]]]

    def call(self, f):
        try:
            return self.enc(f())
        except Exception as e:
            return ["err", type(e).__name__]

    def outside(self, n):
        """Is the node not inside an operation?"""
        n = n.parent
        while n is not None:
            if isinstance(n, (RpcActionNode, NotificationNode)):
                return False
            n = n.parent
        return True

    def text(self, rt):
        """Path for a route, often a wrong one."""
        rng = self.rng
        cs, prev = [], None
        odd = rng.random() < .15
        for n, m in rt:
            q = m != prev
            if odd and rng.random() < .4:
                q = not q
            cs.append(f"{m}:{n}" if q else n)
            prev = m
        x = rng.random()
        if x < .06 and cs:
            cs.pop(rng.randrange(len(cs)))
        elif x < .12:
            cs.insert(rng.randrange(len(cs) + 1), rng.choice(["", "zz", "zz:a", "m0:", ":a", "a:b:c", "input", "output", *[n for n, _ in self.names]]))
        elif x < .18 and cs:
            i = rng.randrange(len(cs))
            n, m = rng.choice(self.names)
            cs[i] = rng.choice([n, f"{m}:{n}", f"{rng.choice(self.mods)}:{cs[i].split(':')[-1]}"])
        elif x < .24:
            n, m = rng.choice(self.names)
            cs.append(rng.choice([n, f"{m}:{n}"]))
        return ("" if rng.random() < .15 else "/") + "/".join(cs)

    def dataroute(self, n):
        r = []
        while n is not None and n.parent is not None:
            if isinstance(n, DataNode) or not r:
                r.insert(0, [n.name, n.ns])
            n = n.parent
        return r

    def query(self):
        rng = self.rng
        n = rng.choice([self.dm.schema] + self.nodes * 8)
        rt = self.routes[id(n)]
        how = rng.choice(["schema", "schema", "data", "data", "data", "child", "dchild", "dchild", "desc", "kids", "iname", "dpath",
                          "dparent", "state", "split"])
        q = {"how": how, "at": rt}
        out = n is not self.dm.schema and self.outside(n)
        isd = isinstance(n, DataNode)
        isop = isinstance(n, (RpcActionNode, NotificationNode))
        if how == "schema":
            q["path"] = self.text(rt if rng.random() < .9 else self.dataroute(n))
            q["res"] = self.call(lambda: self.dm.get_schema_node(q["path"]))
        elif how == "data":
            q["path"] = self.text(self.dataroute(n) if rng.random() < .85 else rt)
            q["res"] = self.call(lambda: self.dm.get_data_node(q["path"]))
        elif how in ("child", "dchild"):
            if not isinstance(n, InternalNode):
                return None
            below = [c for c in self.nodes if c.parent is n or rng.random() < .1 and self.routes[id(c)][:len(rt)] == rt and c is not n]
            c = rng.choice(below) if below and rng.random() < .8 else rng.choice(self.nodes)
            f = n.get_child if how == "child" else n.get_data_child
            q["q"] = [c.name, c.ns if rng.random() < .9 else rng.choice(self.mods)]
            own = q["q"][1] == n.ns and rng.random() < .5
            q["res"] = self.call(lambda: f(c.name) if own else f(*q["q"]))
        elif how == "desc":
            if not isinstance(n, InternalNode):
                return None
            below = [c for c in self.nodes if self.routes[id(c)][:len(rt)] == rt and c is not n]
            c = rng.choice(below) if below and rng.random() < .8 else rng.choice(self.nodes)
            q["r"] = self.routes[id(c)][len(rt) if rng.random() < .9 else 0:]
            q["res"] = self.call(lambda: n.get_schema_descendant([tuple(x) for x in q["r"]]))
        elif how == "kids":
            if not isinstance(n, InternalNode):
                return None
            q["res"] = [self.routes[id(c)] for c in n.data_children()]
        elif how == "iname":
            if not out or not (isd or isop):
                return None
            q["res"] = n.iname()
        elif how == "dpath":
            if not out or not (isd or isop):
                return None
            q["res"] = n.data_path()
        elif how == "dparent":
            if not out:
                return None
            d = n.data_parent()
            q["res"] = [] if d is None else self.routes[id(d)]
        elif how == "state":
            if n is not self.dm.schema and not (out and isd):
                return None
            q["res"] = n.state_roots()
        elif how == "split":
            if not (out and isd):
                return None
            ds = [x for x in self.nodes if isinstance(x, DataNode) and self.outside(x)]
            under = [x for x in ds if self.routes[id(x)][:len(rt)] == rt]
            t = rng.choice(under) if under and rng.random() < .6 else rng.choice(ds)
            items, code, prev = [], [], None
            for nm, m in self.dataroute(t):
                ns = m if m != prev else None
                prev = m
                items.append(MemberName(nm, ns))
                code.append(["m", f"{ns}:{nm}" if ns else nm])
                if rng.random() < .3:
                    items.append(EntryIndex(0))
                    code.append(["s"])
            k = len(items) if rng.random() < .8 else rng.randrange(len(items) + 1)
            items, code = items[:k], code[:k]
            q["r"] = code
            r = n.split_instance_route(InstanceRoute(items))
            q["res"] = -1 if r is None else len(r[0]) if list(r[0]) + list(r[1]) == items else -2
        return q

    def guarded(self, what, f):
        try:
            return f()
        except Exception as e:
            return {"how": "err", "what": what, "exc": f"{type(e).__name__}: {e}"}

    def tree(self):
        t, c = self.rng.random() < .7, self.rng.random() < .3
        lines = self.dm.ascii_tree(no_types=not t, val_count=c).split("\n")
        if lines[-1] == "":
            lines.pop()
        return {"how": "tree", "types": t, "counts": c, "lines": lines}

    def digest(self):
        return {"how": "digest", "res": digest("", json.loads(self.dm.schema_digest()))}


def text(v):
    return v if isinstance(v, str) else json.dumps(v)


def digest(nm, d):
    t = d.get("type", {})
    r = {"nm": nm, "kind": d.get("kind", ""), "config": [d["config"]] if "config" in d else [], "mand": d.get("mandatory", False),
         "desc": d.get("description", ""), "pres": d.get("presence", False), "keys": d.get("keys", []), "base": t.get("base", ""),
         "derived": t.get("derived", ""), "un": d.get("units", ""), "df": [],
         "en": [x for x in t.get("enums", t.get("bits", [])) if x is not None]}
    if "default" in d:
        v = d["default"]
        r["df"] = ["leaf-list", [text(x) for x in v]] if isinstance(v, list) else ["leaf", [text(v)]]
    r["ch"] = [digest(k, x) for k, x in d.get("children", {}).items()]
    return r


def worlds(rng, payload):
    evs = []
    for _ in range(payload["worlds"]):
        w = World(rng, payload.get("opts", {}))
        order = list(w.mods)
        rng.shuffle(order)
        texts = w.texts()
        try:
            dm = load(texts, features=w.on, submodules=w.subm, imports=w.imports, order=order)
        except YangsonException:
            continue        # (judged by C15)
        q = Queries(rng, dm)
        qs = [{"how": "all", "res": list(q.routes.values())[:-1]}, q.guarded("ascii_tree", q.tree), q.guarded("schema_digest", q.digest)]
        if q.nodes:
            for _ in range(payload["n"]):
                x = q.guarded("a query", q.query)
                if x is not None:
                    qs.append(x)
        evs.append({"op": "addr", "files": w.files_event(), "texts": texts, "qs": qs})
    return evs
