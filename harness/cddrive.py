"""Driver of C08, C09, C22: JSON and XML documents, metadata, output filters."""
import json
import xml.etree.ElementTree as ET
import xml.parsers.expat
from xml.sax.saxutils import escape, quoteattr

import ygen
from ddrive import Rec, rooted
from iddrive import eff
from models import REV
from tydrive import jtag
from values import proj_meta, proj, raw as raw_scalar, text as text_scalar
from ygen import InstGen, emit, gen_type, raw_tree
from yangson.exceptions import YangsonException
from yangson.instance import OutputFilter
from yangson.xmlparser import XMLParser

CASE_CPU = 300
MDMOD = """module ietf-yang-metadata { yang-version 1.1; namespace "urn:md"; prefix md; revision 2024-01-01;
  extension annotation { argument name; } }"""


def jt(x):
    """JSON value for the specification."""
    if isinstance(x, dict):
        return ["obj", [[k, jt(v)] for k, v in x.items()]]
    if isinstance(x, list):
        return ["arr", [jt(v) for v in x]]
    if x is None or isinstance(x, (bool, int, float, str)):
        return jtag(x)
    return ["?", type(x).__name__]


class CodecSchema(ygen.Schema):
    pass


def add_annotations(rng, s):
    """Annotation definitions; returns [(qualified name, type)]."""
    o = ygen.Opts(types=["string", "int32", "int64", "boolean", "decimal64", "bits", "identityref", "enumeration"])
    res = []
    for m in s.mods:
        s.extra[m] = []
        for k in range(rng.randint(1, 2)):
            ty = gen_type(rng, s, o, depth=2, mod=m)
            nm = rng.choice(["a", "ann", "last.x"]) + str(k)
            s.extra[m] += [f"md:annotation {nm} {{"] + ["  " + x for x in s._render_type(ty, m)] + ["}"]
            res.append((f"{m}:{nm}", ty))
    return res


def load(s):
    """Data model with the metadata module."""
    import os
    import shutil
    import tempfile
    from yangson import DataModel
    d = tempfile.mkdtemp(prefix="yg-")
    try:
        lib = json.loads(s.library())
        lib["ietf-yang-library:modules-state"]["module"].append(
            {"name": "ietf-yang-metadata", "revision": REV, "namespace": "urn:md", "conformance-type": "implement"})
        with open(os.path.join(d, f"ietf-yang-metadata@{REV}.yang"), "w") as f:
            f.write(MDMOD)
        for m, t in s.yang().items():
            t = t.replace("  revision 2024", "  import ietf-yang-metadata { prefix md; }\n  revision 2024", 1)
            with open(os.path.join(d, f"{m}@{REV}.yang"), "w") as f:
                f.write(t)
        return DataModel(json.dumps(lib), (d,))
    finally:
        shutil.rmtree(d, ignore_errors=True)


class CRec(Rec):
    def __init__(self, rng, opts, gid):
        self.rng = rng
        self.s = ygen.gen_schema(rng, **opts)
        self.annots = add_annotations(rng, self.s)
        self.dm = load(self.s)
        self.ev = []
        self.gid = gid
        sch = self.s.to_tla()
        for n, m in zip(sch, self.s.nodes[1:]):
            n["et"] = eff(m["ty"])
        self.add(op="load", schema=sch, annots=[[a, eff(t)] for a, t in self.annots])


def fail(e):
    if isinstance(e, RecursionError):
        raise e
    return ["err", type(e).__name__, str(getattr(e, "path", "")), isinstance(e, YangsonException)]


# -- JSON ---------------------------------------------------------------------
class Doc:
    """JSON documents of a tree with variations."""

    def __init__(self, rng, rec, wild):
        self.rng, self.s, self.rec, self.wild = rng, rec.s, rec, wild

    def lex(self, x, ty):
        rng = self.rng
        r = raw_scalar(x, ty)
        while ty["b"] == "leafref":
            ty = ty["ty"]
        if x[0] == "t" and ty["b"] == "identityref" and isinstance(r, str):
            return r.split(":")[-1] if rng.random() < .25 else r
        if rng.random() < 0.2 and isinstance(r, str):
            if x[0] == "i" and not r.startswith("-"):
                r = rng.choice(["+", "0", "00"]) + r
            elif x[0] == "d" and "." in r and len(r.split(".")[1]) < ty.get("fd", 0):
                r = rng.choice([r + "0", "+" + r if r[0] != "-" else r])
            elif x[0] == "t" and ty["b"] == "bits":
                r = rng.choice(["  ", " ", "\n"]).join(reversed(r.split()))
        return r

    def junk(self):
        return self.rng.choice([None, True, False, 0, 1, -1, 300, 2 ** 31, 10 ** 20, 1.5, "", "x", "1", "-7", "true", "1.25", "m1:zz", "a b",
                                "YWJj", "YQ", "/", "/m1:a", "/m1:a[k='1']", [], [None], [[None]], [1], ["x"], {}, {"a": 1}, {"m1:a": {}}, [{}]])

    def node(self, i, v):
        rng, s = self.rng, self.s
        if rng.random() < self.wild:
            return self.junk()
        n = s[i] if i else None
        if v[0] == "o" and n["k"] == "anydata":
            r = raw_tree(s, i, v)
            if rng.random() < 0.5:
                r.update(rng.choice([{"a:b": [1, {"c": None}, "x"]}, {"n": -5, "t": True, "l": []}, {"o": {"p": {}}}, {}]))
            return r
        if v[0] == "o":
            res = {}
            items = list(v[1].items())
            rng.shuffle(items)
            for k, x in items:
                c = s.kid(i, k)
                nm = k
                q = rng.random()
                if q < 0.04 and ":" not in k:
                    nm = f"{s[c]['md']}:{k}"
                elif q < 0.04 + self.wild / 2:
                    nm = rng.choice(["zz", "m1:zz", k + "x", "m9:" + k, "m2:" + k, k.split(":")[-1], ":" + k, k + ":"])
                res[nm] = self.node(c, x)
                if rng.random() < 0.15:
                    if s[c]["k"] == "leaf":
                        res["@" + nm] = self.meta()
                    elif s[c]["k"] == "leaf-list" and isinstance(res[nm], list):
                        res["@" + nm] = [rng.choice([None, self.meta()]) for _ in res[nm]]
                if rng.random() < self.wild / 2:
                    res["@" + rng.choice([nm, "zz", "", "m1:a"])] = rng.choice([{}, self.meta(), None, 1, "m1:a0", [self.meta()], [None, None]])
            if rng.random() < 0.08:
                res["@"] = self.meta()
            if rng.random() < 0.3:
                items = list(res.items())
                rng.shuffle(items)
                res = dict(items)
            return res
        if v[0] == "a":
            res = [self.node(i, x) for x in v[1]]
            if res and rng.random() < 0.08:                # sequences with more than ten entries
                res += [self.node(i, rng.choice(v[1])) for _ in range(rng.randint(9, 13))]
                if rng.random() < self.wild * 5:
                    res[rng.randint(9, len(res) - 1)] = self.junk()
            return res
        return self.lex(v, n["ty"])

    def meta(self):
        rng = self.rng
        res = {}
        for a, ty in rng.sample(self.rec.annots, rng.randint(0, min(2, len(self.rec.annots)))):
            v = ygen.gen_value(rng, ty)
            res[a] = self.lex(v, ty) if v else "x"
            if rng.random() < self.wild:
                res[a] = self.junk()
        if rng.random() < self.wild / 2:
            res[rng.choice(["zz", "m1:zz", "m9:a0", "a0"])] = rng.choice(["x", 1])
        return res


OPTS = {"state": 0.2, "anydata": 0.04, "leafref": 0.14, "instid": 0.08, "choice": 0.1, "default": 0.1, "lists": 2.0}
BASE_TYPES = ["string", "int8", "int32", "uint16", "int64", "uint64", "uint32", "boolean", "enumeration", "decimal64", "bits",
              "identityref", "empty", "union", "binary", "binary", "instance-identifier"]


def opts(rng):
    res = dict(OPTS, nodes=rng.choice([8, 14, 22]), types=ygen.Opts().types + rng.choice([[], ["identityref"] * 4]) + ["uint64", "uint32", "uint8", "int16", "int64"])
    return {k: v for k, v in res.items() if hasattr(ygen.Opts(), k)}


def jsondocs(rng, payload):
    evs = []
    for _ in range(payload["schemas"]):
        r = CRec(rng, opts(rng), str(rng.random()))
        for _ in range(payload["trees"]):
            t = ctree(rng, r)
            for _ in range(payload["docs"]):
                d = Doc(rng, r, rng.choice([0, 0, 0.02, 0.05, 0.15])).node(1, t)
                text = json.dumps(d)
                ev = {"op": "jdec", "j": jt(d), "mut": "no"}
                try:
                    root = r.dm.from_raw(json.loads(text))
                except Exception as e:
                    ev["out"] = fail(e)
                    r.add(**ev)
                    continue
                ev["out"] = ["ok", proj(root.value)]
                ev["kept"] = "yes" if json.dumps(d) == text else "no"
                r.add(**ev)
                if has_q(ev["out"][1]) or not r.valid(root):
                    continue
                ev2 = {"op": "jenc", "v": ev["out"][1], "calls": [], "filter": "no"}
                try:
                    enc = root.raw_value()
                    ev2["out"] = ["ok", jt(json.loads(json.dumps(enc)))]
                except Exception as e:
                    ev2["out"] = fail(e)
                ev2["after"] = proj(root.value)
                r.add(**ev2)
        evs += r.ev
    return evs


def has_q(v):
    """Anything that is not a YANG value in a projection?"""
    if v[0] == "o":
        return any(has_q(x) for _, x in v[1])
    if v[0] == "a":
        return any(has_q(x) for x in v[1])
    return v[0] == "?" and v[1] != "None"


def values_ok(inst):
    """Do all leaf values belong to their types?"""
    from yangson.schemanode import AnyContentNode, TerminalNode
    from yangson.instvalue import ArrayValue, ObjectValue

    def walk(sn, v):
        if isinstance(sn, AnyContentNode):
            return True
        if isinstance(v, ObjectValue):
            for k, x in v.items():
                if k.startswith("@"):
                    continue
                p, s, loc = k.rpartition(":")
                if not walk(sn.get_data_child(loc, p or sn.ns), x):
                    return False
            return True
        if isinstance(v, ArrayValue):
            return all(walk(sn, x) for x in v)
        return not isinstance(sn, TerminalNode) or v in sn.type
    return walk(inst.schema_node, inst.value)


CRec.valid = staticmethod(values_ok)


def ctree(rng, r):
    """Tree with instance-identifiers to somewhere."""
    from ddrive import set_instids
    g = InstGen(rng, r.s, p_opt=rng.choice([0.3, 0.55, 0.8]), max_entries=rng.choice([1, 2, 3]))
    t = g.tree()
    set_instids(rng, r.s, t)
    spice(rng, r.s, 1, t)
    return t


ODD = ["", " ", "  x ", "<a/>", "&amp;", "]]>", "'\"", "\u00e9\u03a9", "\n", "a\tb", "\\", "null", "[null]", "true", "1", "m1:i1", "/m1:a", "\u4e2d",
       "x" * 300]
BIG = {"int64": [2 ** 31, -2 ** 63, 2 ** 63 - 1, 2 ** 53 + 1], "uint64": [2 ** 31, 2 ** 64 - 1, 2 ** 63], "uint32": [2 ** 32 - 1, 2 ** 31]}


def spice(rng, s, i, v):
    """Put unusual values into a tree (in place)."""
    if i and s[i]["k"] == "anydata":
        return
    items = v[1].items() if v[0] == "o" else enumerate(v[1]) if v[0] == "a" else ()
    for k, x in list(items):
        c = s.kid(i, k) if v[0] == "o" else i
        if x[0] in ("o", "a"):
            spice(rng, s, c, x)
            continue
        ty = s[c]["ty"]
        if ty["b"] == "string" and not ty.get("ln") and rng.random() < 0.3:
            v[1][k] = ["s", rng.choice(ODD)]
        elif ty["b"] in BIG and not ty.get("rg") and rng.random() < 0.3:
            v[1][k] = ["I", str(rng.choice(BIG[ty["b"]]))]
        elif ty["b"] == "binary" and rng.random() < 0.3:
            v[1][k] = ["x", rng.randbytes(rng.randint(0, 9)).hex()]


# -- XML ----------------------------------------------------------------------
def xparse(text):
    """XML document for the specification (with expat, independent of ElementTree)."""
    stack, root, env = [], [], [{}]
    pend = {}

    def module(uri):
        return "" if not uri else uri[4:] if uri in ("urn:m1", "urn:m2") else "?"

    def ns_start(prefix, uri):
        pend[prefix or ""] = module(uri)

    def start(name, attrs):
        nonlocal pend
        e = dict(stack[-1]["_env"] if stack else {}, **pend)
        pend = {}
        uri, _, nm = name.rpartition(" ")
        el = {"ns": module(uri), "nm": nm, "tx": "", "ks": [], "_env": e, "env": [[k, v] for k, v in e.items() if v],
              "at": [[module(a.rpartition(" ")[0]), a.rpartition(" ")[2], v] for a, v in attrs.items()]}
        (stack[-1]["ks"] if stack else root).append(el)
        stack.append(el)

    def end(name):
        del stack.pop()["_env"]

    def chars(data):
        if not stack[-1]["ks"]:
            stack[-1]["tx"] += data
    p = xml.parsers.expat.ParserCreate(namespace_separator=" ")
    p.buffer_text = True
    p.StartNamespaceDeclHandler = ns_start
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.Parse(text.encode("utf-8") if isinstance(text, str) else text, True)
    return root[0]


class XDoc:
    """XML documents of a tree with varying prefixes, namespaces and order."""

    def __init__(self, rng, rec, wild):
        self.rng, self.s, self.rec, self.wild = rng, rec.s, rec, wild

    def prefix(self, mod, scope, decl, default=True):
        """A prefix bound to the module's namespace, declared if there is none."""
        rng = self.rng
        have = [p for p, m in scope.items() if m == mod and (p or default)]
        if have and rng.random() < 0.8:
            return rng.choice(have)
        p = rng.choice(["", "", "a", "b", "m1", "m2", "x.y-z"] if default else ["a", "b", "m1", "m2", "_q"])
        if p in decl and decl[p] != mod:
            p = "p%d" % rng.randint(0, 10 ** 6)
        decl[p] = scope[p] = mod
        return p

    def body(self, i, v, scope, decl):
        """Text of a value, or children elements."""
        rng = self.rng
        ty = self.s[i]["ty"]
        if v[0] == "t" and len(v[1]) == 2 and list(v[1]) in self.idents(ty):
            k = self.prefix(v[1][1], scope, decl)
            return f"{k}:{v[1][0]}" if k else v[1][0]
        if v[0] == "r":
            from yangson.instance import EntryKeys, InstanceIdParser, MemberName
            cur, res = None, ""
            for x in InstanceIdParser(v[1]).parse():
                if isinstance(x, MemberName):
                    cur = x.namespace or cur
                    res += "/" + self.prefix(cur, scope, decl, False) + ":" + x.name
                elif isinstance(x, EntryKeys):
                    for (n, m), val in x.keys.items():
                        q = "'" if "'" not in val else '"'
                        res += f"[{self.prefix(m or cur, scope, decl, False)}:{n}={q}{val}{q}]"
                else:
                    res += str(x)
            return res
        t = text_scalar(v)
        if v[0] in ("i", "d") and rng.random() < 0.2:
            t = rng.choice([" " + t, t + "\n", "+" + t if t[0] not in "-+" else t])
        return t

    @staticmethod
    def idents(ty):
        b = ty["b"]
        if b == "union":
            return [x for u in ty["u"] for x in XDoc.idents(u)]
        if b == "leafref":
            return XDoc.idents(ty["ty"])
        return [list(x) for x in ty["ids"]] if b == "identityref" else []

    def junk(self):
        return self.rng.choice(["", " ", "x", "1", "-7", "300", "1.5", "true", "yes", "a b", "m1:i1", "zz:i1", "YQ", "/m1:a", "/", "99999999999999999999",
                                "&lt;b/&gt;", "<x/>", "1<!-- c -->2", "<![CDATA[5]]>"])

    def element(self, i, v, scope):
        rng, s = self.rng, self.s
        n = s[i]
        scope, decl = dict(scope), {}
        mod, name = n["md"], n["nm"]
        if rng.random() < self.wild / 3:
            name = rng.choice(["zz", name + "x", s[rng.randint(2, len(s.nodes) - 1)]["nm"]])
        if rng.random() < self.wild / 3:
            mod = rng.choice(["m1", "m2", "m9", "zz"])
        k = self.prefix(mod, scope, decl)
        if rng.random() < self.wild / 3:
            inner = self.junk()
        elif v[0] == "o":
            inner = self.children(i, v, scope)
        else:
            inner = escape(self.body(i, v, scope, decl))
            if rng.random() < 0.1:
                inner = rng.choice(["<!-- c -->" + inner, inner + "<!--x-->", f"<![CDATA[{inner}]]>" if "&" not in inner else inner])
        tag = f"{k}:{name}" if k else name
        ns = "".join(f' xmlns{":" + p if p else ""}={quoteattr("urn:" + m)}' for p, m in decl.items())
        return f"<{tag}{ns}>{inner}</{tag}>" if inner or rng.random() < 0.5 else f"<{tag}{ns}/>"

    def children(self, i, v, scope):
        rng, s = self.rng, self.s
        groups = []
        for k, x in v[1].items():
            c = s.kid(i, k)
            if s[c]["k"] in ("list", "leaf-list"):
                groups.append([self.element(c, y, scope) for y in x[1]])
                if groups[-1] and rng.random() < 0.06:
                    groups[-1] += [self.element(c, rng.choice(x[1]), scope) for _ in range(rng.randint(9, 13))]
            else:
                groups.append([self.element(c, x, scope)] * (2 if rng.random() < self.wild / 5 else 1))
        res = []
        if rng.random() < 0.5:
            for g in groups:
                res += g
        else:
            while groups:
                g = rng.choice(groups)
                if not g:
                    groups.remove(g)
                else:
                    res.append(g.pop(0))
        return rng.choice(["", "\n ", "<!-- c -->"]).join(res)

    def doc(self, t):
        rng = self.rng
        scope = rng.choice([{}, {"": "m1"}, {"a": "m1", "b": "m2"}, {"m2": "m1", "m1": "m2"}, {"": "m2", "a": "m1"}, {"": "zz"}])
        ns = "".join(f' xmlns{":" + p if p else ""}={quoteattr("urn:" + m)}' for p, m in scope.items())
        return rng.choice(["", '<?xml version="1.0" encoding="UTF-8"?>\n']) + f"<config{ns}>{self.children(1, t, scope)}</config>"


def xdec(r, text, what):
    ev = {"op": "xdec", "x": xparse(text), "what": what}
    try:
        root = r.dm.from_xml(XMLParser(text).root)
        ev["out"] = ["ok", proj(root.value)]
    except Exception as e:
        ev["out"] = fail(e)
        root = None
    r.add(**ev)
    return root


def xmldocs(rng, payload):
    """C09: XML spellings of trees, and trees written as XML and read back."""
    evs = []
    for _ in range(payload["schemas"]):
        r = CRec(rng, dict(opts(rng), anydata=0), str(rng.random()))
        for _ in range(payload["trees"]):
            t = ctree(rng, r)
            for _ in range(payload["docs"]):
                d = XDoc(rng, r, rng.choice([0, 0, 0.05, 0.15, 0.4]))
                root = xdec(r, d.doc(t), "doc")
                if root is not None and values_ok(root):
                    xenc(rng, r, root)
            d = Doc(rng, r, 0)
            try:
                root = r.dm.from_raw(d.node(1, t))
            except YangsonException:
                continue        # judged by C08
            if values_ok(root):
                xenc(rng, r, root)
        evs += r.ev
    return evs


def xenc(rng, r, root, filt=None):
    v = proj(root.value)
    if has_q(v):
        return
    ev = {"op": "xenc", "v": v, "calls": [], "filter": "no" if filt is None else "yes"}
    back = None
    try:
        el = root.to_xml() if filt is None else root.to_xml(filt)
        if el is None:      # nothing to write
            el = ET.Element("content-data")
        back = ET.tostring(el).decode()
        ev["out"] = ["ok", xparse(back)]
    except Exception as e:
        ev["out"] = fail(e)
        back = None
    if filt is not None:
        ev["calls"] = filt.calls
    ev["after"] = proj(root.value)
    r.add(**ev)
    if back and filt is None:
        xdec(r, back, "back")


# -- filters --------------------------------------------------------------------
class Filter(OutputFilter):
    """Answers and changes of metadata are functions of the position."""

    def __init__(self, salt, p_no, p_clear=0):
        self.salt, self.p_no, self.p_clear, self.calls = salt, p_no, p_clear, []

    def ask(self, kind, node, attributes):
        import random
        pos = [k + 1 if isinstance(k, int) else k for k in node.path]
        g = random.Random(f"{self.salt}/{kind}/{pos}")
        yes = g.random() >= self.p_no
        seen = proj_meta(attributes)
        clear = g.random() < self.p_clear
        if clear:
            attributes.clear()
        self.calls.append([kind, pos, "yes" if yes else "no", "clear" if clear else "", seen])
        return yes

    def begin_member(self, parent, node, attributes):
        return self.ask("bm", node, attributes)

    def end_member(self, parent, node, attributes):
        return self.ask("em", node, attributes)

    def begin_element(self, parent, node, attributes):
        return self.ask("be", node, attributes)

    def end_element(self, parent, node, attributes):
        return self.ask("ee", node, attributes)


def jenc(r, root, filt=None):
    v = proj(root.value)
    if has_q(v):
        return
    ev = {"op": "jenc", "v": v, "filter": "no" if filt is None else "yes"}
    try:
        enc = root.raw_value() if filt is None else root.raw_value(filt)
        ev["out"] = ["ok", jt(json.loads(json.dumps(enc)))]
    except Exception as e:
        ev["out"] = fail(e)
    ev["calls"] = filt.calls if filt is not None else []
    ev["after"] = proj(root.value)
    r.add(**ev)


def filters(rng, payload):
    """C22: filtered output and metadata through edits."""
    evs = []
    for _ in range(payload["schemas"]):
        r = CRec(rng, dict(opts(rng), anydata=rng.choice([0, 0.06])), str(rng.random()))
        xml = not any(n["k"] == "anydata" for n in r.s.nodes[2:])
        for _ in range(payload["trees"]):
            t = ctree(rng, r)
            d = Doc(rng, r, 0)
            try:
                root = r.dm.from_raw(d.node(1, t))
            except YangsonException:
                continue
            if not values_ok(root):
                continue
            jenc(r, root)
            for p in [0] + [rng.choice([0.05, 0.15, 0.3, 0.6, 1]) for _ in range(payload["filters"])]:
                salt = rng.random()
                cl = rng.choice([0, 0, 0.3, 0.7])
                jenc(r, root, Filter(salt, p, cl))
                if xml:
                    xenc(rng, r, root, Filter(salt, p, cl))
            for _ in range(payload["edits"]):
                root = medit(rng, r, root) or root
        evs += r.ev
    return evs


def spots(inst, res):
    """Instance nodes of a tree."""
    from yangson.schemanode import AnyContentNode
    from yangson.instvalue import ArrayValue, ObjectValue
    if isinstance(inst.schema_node, AnyContentNode):
        return
    if isinstance(inst.value, ObjectValue):
        for m in list(inst.value):
            if m[0] != "@":
                res.append(inst[m])
                spots(res[-1], res)
    elif isinstance(inst.value, ArrayValue) and inst.schema_node.__class__.__name__ == "ListNode":
        for i in range(len(inst.value)):
            res.append(inst[i])
            spots(res[-1], res)


def medit(rng, r, root):
    """One edit of a node; the metadata of all others must stay."""
    s = r.s
    nodes = []
    spots(root, nodes)
    if not nodes:
        return None
    n = rng.choice(nodes)
    path = [k + 1 if isinstance(k, int) else k for k in n.path]
    i = 1
    for k in n.path:
        if isinstance(k, str):
            i = s.kid(i, k)
    ev = {"op": "medit", "v": proj(root.value), "path": path}
    q = rng.random()
    from yangson.instance import ArrayEntry
    if s[i]["k"] == "leaf" and q < 0.6:
        w = ygen.gen_value(rng, s[i]["ty"])
        if not w:
            return None
        new = n.update(raw_scalar(w, s[i]["ty"]), raw=True)
        ev.update(kind="set", new=proj(new.value))
    elif isinstance(n, ArrayEntry) and q < 0.6:
        new = n.insert_before(n.value.copy()) if q < 0.3 else n.insert_after(n.value.copy())
        ev.update(kind="before" if q < 0.3 else "after", new=proj(n.value))
    else:
        new = n.up().delete_item(n.path[-1])
        ev.update(kind="delete", new=["?", "None"])
    res = new.top()
    ev["out"] = proj(res.value)
    r.add(**ev)
    jenc(r, res)
    return res
