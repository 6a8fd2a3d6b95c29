"""Driver of C11: XPath texts given to the parser."""
import itertools
import re

import xgen
import ygen
from ddrive import Rec, collect_vals, goto, positions, xvalue
from yangson.exceptions import ParserException, UnknownPrefix, YangsonException
from yangson.schemadata import SchemaContext
from yangson.xpathparser import XPathParser

TOK = re.compile(r'''"[^"]*"|'[^']*'|\d+(?:\.\d*)?|\.\d+|[A-Za-z_][\w.-]*(?::(?!:)[A-Za-z_*][\w.-]*)?'''
                 r'''|::|\.\.|//|!=|<=|>=|\S''')
POOL = ["(", ")", "[", "]", ",", "/", "//", ".", "..", "@", "|", "+", "-", "*", "=", "!=", "<", "<=", ">", ">=",
        "::", ":", "$", "and", "or", "div", "mod", "!", "1", "2", "1.5", ".5", "1.", "'a'", '"b c"', "''", "a", "b",
        "node", "text", "comment", "self", "child", "descendant-or-self", "ancestor", "attribute", "following",
        "namespace", "processing-instruction", "last", "position", "true", "count", "string", "not", "concat",
        "substring", "id", "lang", "current", "translate", "sum", "contains", "number", "name", "p:a", "zz:b", "p:*",
        "following-sibling", "parent", "child::", "self::", "node()", "last()", "position()", "()", "'", '"', "#", "{",
        "and-b", "or1", "div.x", "-1", "a-b", "local_name", "derived_from", "bit_is_set", "starts_with", "%", "\\", "..."]
SHORT = ["(", ")", "[", "]", ",", "/", "//", ".", "..", "|", "-", "*", "=", "!=", "<=", "::", "and", "or", "div",
         "mod", "1", "1.", ".5", "'a'", "a", "node", "self", "last", "count", "not", "p:a", "$", "@", "id", "text"]
WS = [" ", " ", " ", "  ", "\n", "\t", "\r\n "]


def tokens(t):
    return TOK.findall(t)


def glue(rng, ts, p):
    """Text of a token sequence; p: probability of no white space between tokens."""
    res = "" if rng.random() < 0.8 else rng.choice(WS)
    for i, t in enumerate(ts):
        res += t
        if i + 1 == len(ts):
            if rng.random() < 0.1:
                res += rng.choice(WS)
        elif rng.random() > p:
            res += rng.choice(WS)
    return res


def tight(rng, ts):
    """Text of a token sequence with as little white space as possible: only where two tokens would
    otherwise be read as one."""
    res = ""
    for t in ts:
        if res and re.match(r"[\w.-]", t) and re.search(r"[\w.]$", res):
            res += " "
        elif res and (t == "=" and res[-1] in "<>!" or t[0] == ":" and res[-1] == ":" or t[0] == "/" and res[-1] == "/"):
            res += " "
        res += t
    return res


def mutate(rng, ts, n):
    ts = list(ts)
    for _ in range(n):
        i = rng.randrange(len(ts) + 1)
        k = rng.random()
        if k < 0.3 and ts:
            ts.pop(min(i, len(ts) - 1))
        elif k < 0.6:
            ts.insert(i, rng.choice(POOL))
        elif k < 0.85 and ts:
            ts[min(i, len(ts) - 1)] = rng.choice(POOL)
        elif len(ts) > 1:
            j = rng.randrange(len(ts))
            i = min(i, len(ts) - 1)
            ts[i], ts[j] = ts[j], ts[i]
    return ts


def exotic(rng, ts):
    """Equivalent or nearly equivalent token sequences."""
    out = []
    for t in ts:
        if re.fullmatch(r"[a-z-]+", t) and "-" in t and rng.random() < 0.05:
            t = t.replace("-", "_")
        out.append(t)
    return out


class Ctx:
    def __init__(self, r):
        self.r = r
        self.mod = r.s.mods[-1]
        self.sctx = SchemaContext(r.dm.schema_data, self.mod, (self.mod, "2024-01-01"))
        i = r.s.mods.index(self.mod)
        r.ev[0]["ctx"] = {"px": [[r.s.prefix(m, self.mod), m] for m in r.s.mods[:i + 1]], "md": self.mod, "mods": list(r.s.mods)}

    def parse(self, txt):
        x = XPathParser(txt, self.sctx)
        a = x.parse()
        return a if x.at_end() else None

    def parsed(self, txt):
        if any(c in m for m in re.findall(r"'[^']*'|\"[^\"]*\"", txt) for c in "\t\r\n"):
            return None         # printed as character references
        try:
            a = self.parse(txt)
        except RecursionError:
            raise
        except Exception as ex:
            self.r.add(op="xparse", text=txt, out=["err", type(ex).__name__,
                                                   isinstance(ex, (ParserException, UnknownPrefix))])
            return None
        if a is None:
            self.r.add(op="xparse", text=txt, out=["err", "trailing text", True])
            return None
        self.r.add(op="xparse", text=txt, out=["ok", str(a)])
        return a


def okay(e):
    """Can the specification evaluate the parsed text of the expression?"""
    return not (isinstance(e, list) and (e[:1] in (["id"], ["re"]) or not all(okay(x) for x in e)))


def arith(rng, d):
    """Expression over constants whose value depends on how it is parsed."""
    if d <= 0 or rng.random() < 0.15:
        return rng.choice([["num", rng.randint(0, 9), 1], ["num", rng.choice([1, 3, 5]), 2], ["num", rng.randint(2, 20), 1]])
    r = rng.random()
    if r < 0.7:
        op = rng.choice(["+", "-", "-", "*", "div", "mod", "=", "!=", "<", "<=", ">", ">=", "and", "or"])
        return ["bin", op, arith(rng, d - 1), arith(rng, d - 1)]
    if r < 0.85:
        return ["neg", arith(rng, d - 1)]
    f = rng.choice(["floor", "round", "ceiling", "number", "not", "boolean", "string-length", "string"])
    return ["fn", f, [arith(rng, d - 1)]]


def drop_parens(rng, ts):
    """Remove some pairs of parentheses that group (the text then means something else)."""
    ts = list(ts)
    st, pairs = [], []
    for i, t in enumerate(ts):
        if t == "(":
            st.append(i)
        elif t == ")" and st:
            j = st.pop()
            if j == 0 or not re.match(r"[A-Za-z_]", ts[j - 1]) or ts[j - 1] in ("and", "or", "div", "mod"):
                pairs.append((j, i))
    gone = set()
    for a, b in pairs:
        if rng.random() < 0.7:
            gone |= {a, b}
    return [t for i, t in enumerate(ts) if i not in gone]


def texts(rng, payload):
    evs = []
    for k in range(payload["schemas"]):
        r = Rec(rng, dict(leafref=0.1, instid=0.05, mand=0.05, mods=("m1", "m2"), **payload["opts"]), f"{rng.random()}")
        c = Ctx(r)
        t, rt = r.tree(p_opt=0.8, )
        inst = r.use(t, [])
        ps = positions(r.s, t)
        g = xgen.XGen(rng, r.s, c.mod, collect_vals(r.s, t))
        for _ in range(payload["exprs"]):
            p, i, _ = rng.choice(ps)
            cst = rng.random() < 0.4
            e = arith(rng, rng.choice([2, 3, 3, 4])) if cst else g.expr(i, rng.choice([1, 2, 2, 3, 3]))
            ts = tokens(ygen.xtext(e, r.s, c.mod, rng))
            if cst and rng.random() < 0.5:
                ts = drop_parens(rng, ts)
            m = rng.random()
            good = m < 0.5
            if not good:
                ts = mutate(rng, ts, rng.choice([1, 1, 1, 2, 3])) if m < 0.9 else exotic(rng, ts)
            txt = tight(rng, ts) if rng.random() < 0.25 else glue(rng, ts, rng.choice([0.0, 0.1, 0.9, 1.0]))
            if re.search(r"\d{6}|[^ -~\s]", re.sub(r"'[^']*'|\"[^\"]*\"", "", txt)):
                continue
            a = c.parsed(txt)
            if a is None or not good or not okay(e) or "deref" in txt:
                continue
            try:
                out = xvalue(a.evaluate(goto(inst, p)))
            except RecursionError:
                raise
            except Exception as ex:
                out = ["err", type(ex).__name__]
            r.add(op="xeval", text=txt, n=p, out=out)
        for _ in range(payload["soup"]):
            c.parsed(glue(rng, [rng.choice(POOL) for _ in range(rng.randint(1, 7))], rng.choice([0.0, 0.3, 1.0])))
        evs += r.ev
    return evs


def short(rng, payload):
    """All token sequences up to a length, part k of n."""
    r = Rec(rng, dict(mods=("m1",), nodes=4), f"short{payload['k']}")
    c = Ctx(r)
    r.ev[0]["ctx"]["px"].append(["p", r.s.mods[0]])
    base = c.sctx.schema_data.modules[c.sctx.text_mid].prefix_map
    base["p"] = c.sctx.text_mid
    n = 0
    for ln in range(1, payload["len"] + 1):
        for ts in itertools.product(SHORT, repeat=ln):
            n += 1
            if n % payload["n"] != payload["k"]:
                continue
            if ln > 3 and rng.random() > payload.get("p", 1):
                continue
            c.parsed(" ".join(ts))
            if n % 7 == 0:
                c.parsed("".join(ts))
    return r.ev
