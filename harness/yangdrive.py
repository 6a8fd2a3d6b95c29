"""Driver of C16: YANG source text and statements."""
from yangson.exceptions import (EndOfInput, ModuleNameMismatch, ModuleRevisionMismatch, ParserException,
                                StatementNotFound)
from yangson.statement import ModuleParser

CASE_CPU = 100
KWS = ["leaf", "container", "description", "revision", "type", "must", "a", "b-c", "_d.1", "error-message",
       "error-app-tag", "module", "submodule", "not"]
PXS = ["", "", "", "", "p", "x-1", "_q"]
FRAGS = ["a", "b", "1", ".", "-", "/", "*", "+", ":", ";", "{", "}", "'", '"', "\\", " ", "  ", "\t", "\n", "\r\n", "//",
         "/*", "*/", "n", "t", "é", "=", "module", "\n ", "\n\t", " \n", "[", "]", "\\n", "\\t", '\\"', "\\\\"]
MUT = ["'", '"', ";", "{", "}", "/", "*", "//", "/*", "*/", "\\", "+", " ", "\n", "\r", "\t", ":", "a", "\\x", "\\n", "1"]


def word(rng):
    x = rng.random()
    if x < .4:
        return rng.choice(["x", "foo", "2024-01-01", "a/b", "m", "a:b", "/a", "a+b", "-1..2", "a/", "*", "/", "a*", "é"])
    return "".join(rng.choice(FRAGS) for _ in range(rng.choice([0, 1, 2, 3, 5, 8])))


def tree(rng, d, kw=None):
    n = rng.choice([0, 0, 1, 2, 3]) if d > 0 else 0
    return [rng.choice(PXS) if kw is None else "", kw or rng.choice(KWS), [] if rng.random() < .15 and kw is None else [word(rng)],
            [tree(rng, d - 1) for _ in range(n)]]


class Text:
    """Text of a tree in any of its spellings."""

    def __init__(self, rng):
        self.rng = rng
        self.nl = rng.choice(["\n", "\n", "\n", "\r\n"])

    def sep(self, must):
        rng = self.rng
        res = ""
        for _ in range(rng.choice([0, 0, 0, 1, 2]) + must):
            res += rng.choice([" ", " ", " ", "  ", "\t", self.nl, self.nl + "  ", "/* c */", "// x" + self.nl, "/**/", "/***/", "/* ' \" { */",
                               "//" + self.nl, "/*/*/", "// */ ;" + self.nl, "/*\n*/"])
        return res

    def unquotable(self, s):
        return s != "" and not any(c in s for c in " \t\r\n;{}'\"") and "//" not in s and "/*" not in s and "*/" not in s

    def dq(self, s, col):
        rng = self.rng
        out = ""
        for c in s:
            if c in '"\\':
                out += "\\" + c
            elif c == "\n" and rng.random() < .5 or c == "\t" and rng.random() < .5:
                out += "\\" + {"\n": "n", "\t": "t"}[c]
            elif c == "\n":
                out += rng.choice(["", "", " ", "\t", "  "]) + self.nl
                out += rng.choice(["", " " * (col + 1), " " * (col + 1), " " * rng.randrange(12), "\t", "\t ", " \t", "\t\t"])
            else:
                out += c
        return '"' + out + '"'

    def quoted(self, s, col):
        if "'" not in s and self.rng.random() < .4:
            return f"'{s}'"
        return self.dq(s, col)

    def arg(self, s, col):
        rng = self.rng
        if self.unquotable(s) and rng.random() < .6:
            return s
        if s and rng.random() < .2:
            k = rng.randrange(len(s) + 1)
            a = self.quoted(s[:k], col)
            return a + self.sep(0) + "+" + self.sep(0) + self.quoted(s[k:], rng.randrange(20))
        return self.quoted(s, col)

    def stmt(self, t, col):
        rng = self.rng
        px, kw, arg, sub = t
        res = f"{px}:{kw}" if px else kw
        if arg:
            s = self.sep(1)
            # no tabs before a string in its line (how wide they are is left open)
            if "\t" in s:
                s = " "
            c = col + len(res) + len(s)
            if "\n" in s:
                c = len(s) - s.rindex("\n") - 1
            res += s + self.arg(arg[0], c)
        res += self.sep(0)
        if not sub and rng.random() < .7:
            return res + ";"
        res += "{"
        for x in sub:
            k = rng.choice([0, 0, 2, 4, 7])
            res += (self.nl + " " * k if k or rng.random() < .5 else self.sep(0))
            if "\t" in res[res.rfind("\n") + 1:]:
                res += self.nl + " " * k
            res += self.stmt(x, len(res) - res.rfind("\n") - 1)
        return res + self.sep(0) + "}"


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(s) + 1)
        x = rng.random()
        if x < .3:
            s = s[:i] + s[i + rng.choice([1, 1, 2, 4]):]
        elif x < .6:
            s = s[:i] + rng.choice(MUT) + s[i:]
        elif x < .8:
            s = s[:i] + rng.choice(MUT) + s[i + 1:]
        else:
            s = s[:i]
    return s


def odd_tabs(s):
    """Are there tabs between other characters and a double quote in a line?"""
    for line in s.split("\n"):
        t = line.lstrip("\t")
        if "\t" in t and '"' in t[t.index("\t"):]:
            return True
    return False


def enc(s):
    return [s.prefix or "", s.keyword, [] if s.argument is None else [s.argument], [enc(x) for x in s.substatements]]


def links(s):
    return all(x.superstmt is s and links(x) for x in s.substatements)


def parse(text, name, rev):
    try:
        st = ModuleParser(text, name[0] if name else None, rev).parse()
        if not links(st) or st.superstmt is not None:
            return ["exc", "wrong superstatement"], None
        return ["ok", enc(st)], st
    except EndOfInput:
        return ["end"], None
    except ModuleNameMismatch:
        return ["name"], None
    except ModuleRevisionMismatch:
        return ["rev"], None
    except ParserException as e:
        return ["bad", e.parser.offset, list(e.parser.line_column())], None
    except RecursionError:
        raise
    except Exception as e:
        return ["exc", f"{type(e).__name__}: {e}"], None


def all_nodes(s):
    yield s
    for x in s.substatements:
        yield from all_nodes(x)


def searches(rng, st, n):
    nodes = list(all_nodes(st))
    res = []
    for _ in range(n):
        s = rng.choice(nodes)
        big = max(nodes, key=lambda x: len(x.substatements))
        if rng.random() < .4:
            s = big
        e = {"op": "search", "how": rng.choice(["find1", "find1", "all", "info", "str"])}
        shallow = enc(s)
        shallow[3] = [x[:3] + [[]] for x in shallow[3]]
        e["st"] = shallow
        sub = rng.choice(s.substatements) if s.substatements and rng.random() < .8 else None
        e["kw"] = sub.keyword if sub else rng.choice(KWS)
        e["px"] = (sub.prefix or "") if sub and rng.random() < .8 else rng.choice(PXS)
        e["arg"] = []
        ids = {id(x): i + 1 for i, x in enumerate(s.substatements)}
        if e["how"] == "find1":
            if rng.random() < .4:
                e["arg"] = [sub.argument] if sub and sub.argument is not None else [word(rng)]
            e["req"] = rng.random() < .3
            try:
                f = s.find1(e["kw"], e["arg"][0] if e["arg"] else None, e["px"] or None, e["req"])
                e["res"] = ["ok", 0 if f is None else ids.get(id(f), -1)]
            except StatementNotFound:
                e["res"] = ["StatementNotFound"]
        elif e["how"] == "all":
            e["res"] = ["ok", [ids.get(id(x), -1) for x in s.find_all(e["kw"], e["px"] or None)]]
        elif e["how"] == "info":
            e["res"] = [[] if x is None else [x] for x in s.get_error_info()]
        else:
            if s.substatements or any("\n" in a for a in shallow[2]):
                continue
            e["res"] = str(s)
        res.append(e)
    return res


def texts(rng, payload):
    evs = []
    for _ in range(payload["n"]):
        top = tree(rng, rng.choice([0, 1, 2, 3]), rng.choice(["module", "module", "submodule"]) if rng.random() < .95 else None)
        top[2] = [rng.choice(["m", "m", "foo"])]
        if rng.random() < .2:
            top[3].insert(rng.randrange(len(top[3]) + 1), ["", "revision", [rng.choice(["2024-01-01", "2023-01-01"])], []])
        w = Text(rng)
        s = w.sep(0) + w.stmt(top, 0) if rng.random() < .3 else w.stmt(top, 0)
        s += rng.choice(["", "", "\n", w.sep(0), "//x", "// x\n"])
        if rng.random() < .5:
            s = mutate(rng, s)
        if len(s) > 500 or odd_tabs(s):
            continue
        name = rng.choice([[], [], [], top[2], ["foo"]])
        revs = [x[2][0] for x in top[3] if x[:2] == ["", "revision"] and x[2]]
        rev = revs[0] if revs and rng.random() < .95 else rng.choice(["", "", "", "", "2024-01-01"])
        out, st = parse(s, name, rev)
        evs.append({"op": "parse", "text": s, "name": name, "rev": rev, "out": out})
        if st is not None:
            evs += searches(rng, st, 3)
    return evs
