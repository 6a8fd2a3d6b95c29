"""Driver of C17: generated chains of types and candidate values."""
import base64
import decimal
import json
import xml.etree.ElementTree as ET

import models
import ygen
from values import INTR, cook, proj
from yangson.exceptions import YangsonException

IDS = [["i0", "m1", []], ["i1", "m1", [["i0", "m1"]]], ["i2", "m1", [["i1", "m1"]]], ["j0", "m2", []],
       ["j1", "m2", [["i0", "m1"], ["j0", "m2"]]], ["j2", "m2", [["i1", "m1"]]], ["i9", "m1", []]]
INTS = sorted(INTR)
OUT = ["string", "string", "enumeration", "enumeration", "bits", "bits", "decimal64", "decimal64", "binary", "boolean", "empty",
       "identityref", "union"] + ["int"] * 6


def layer(**kw):
    return dict({"rg": "", "ln": "", "pt": [], "en": [], "bt": []}, **kw)


def fmt(n, fd):
    """Text of n * 10^-fd."""
    if fd is None:
        return str(n)
    s = str(abs(n)).rjust(fd + 1, "0")
    t = s[:-fd] + "." + s[-fd:]
    if not int(s[-fd:]):
        t = s[:-fd]
    return ("-" if n < 0 else "") + t


class TGen:
    def __init__(self, rng):
        self.rng = rng

    def points(self, iv):
        """Interesting numbers around and in intervals."""
        rng = self.rng
        ps = set()
        for lo, hi in iv:
            ps |= {lo, hi, lo + 1, hi - 1}
            for _ in range(3):
                ps.add(rng.randint(lo, hi))
            if hi - lo > 50:
                ps |= {min(hi, max(lo, x)) for x in (-1, 0, 1, 2, 10, rng.randint(-99, 999))}
        return sorted(ps)

    def range(self, iv, fd, neg_ok=True):
        """(text, intervals or None if deliberately wrong)."""
        rng = self.rng
        ps = [p for p in self.points(iv) if any(a <= p <= b for a, b in iv)]
        bad = rng.random() < 0.22
        cov = []            # adjacent intervals of integers form one
        for a, b in iv:
            if cov and fd is None and cov[-1][1] + 1 == a:
                cov[-1][1] = b
            else:
                cov.append([a, b])
        n = rng.choice([1, 1, 1, 2, 2, 3])
        new = []
        k = 0
        while len(new) < n and k < 20:
            k += 1
            a = rng.choice(ps)
            b = a if rng.random() < 0.25 else rng.choice(ps)
            if a > b:
                a, b = b, a
            if any(x <= a and b <= y for x, y in cov) and all(b < x or a > y for x, y in new):
                if b - a > 2 and rng.random() < 0.35:     # adjacent parts, or one value left out
                    m = rng.choice([a, a + 1, b - 2, rng.randint(a, b - 2)])
                    new += [[a, m], [m + rng.choice([1, 1, 2]), b]]
                else:
                    new.append([a, b])
        new.sort()
        if not new:
            new = [list(iv[0])]
        parts = []
        for i, (a, b) in enumerate(new):
            ta = "min" if a == iv[0][0] and rng.random() < 0.5 else fmt(a, fd)
            tb = "max" if b == iv[-1][1] and rng.random() < 0.5 else fmt(b, fd)
            parts.append([ta] if a == b and rng.random() < 0.8 else [ta, tb])
        if bad:
            k = rng.random()
            if len(cov) > 1 and rng.random() < 0.25:     # over the gap
                j = rng.randrange(len(cov) - 1)
                parts = [[fmt(rng.choice([cov[j][0], cov[j][1]]), fd), fmt(rng.choice([cov[j + 1][0], cov[j + 1][1]]), fd)]]
            elif k < 0.3:         # outside
                out = [iv[0][0] - 1, iv[-1][1] + 1] + [iv[i][1] + 1 for i in range(len(iv) - 1)]
                j = rng.randrange(len(parts))
                parts[j][rng.randrange(len(parts[j]))] = fmt(rng.choice(out), fd)
            elif k < 0.45:
                rng.shuffle(parts)
                rng.choice(parts).reverse()
            elif k < 0.6:
                parts.append(list(parts[-1]))
            elif k < 0.8:
                j = rng.randrange(len(parts))
                parts[j][rng.randrange(len(parts[j]))] = rng.choice(
                    ["", "x", "1_0", "1e1", "--1", "+1", "01", "0x1", "1.5", "٣", "MIN", "1 0", "1.", ".5", "-"])
            elif k < 0.9:
                parts[0] = parts[0] + ["1", "2"][:rng.randint(1, 2)]
            else:
                parts.insert(rng.randrange(len(parts) + 1), [""])
        sp = lambda: rng.choice(["", "", "", " ", "  ", "\n "])
        txt = f"{sp()}|{sp()}".join(f"{sp()}..{sp()}".join(p) for p in parts)
        return txt, None if bad else new

    def names(self, pool):
        rng = self.rng
        ns = rng.sample(pool, rng.randint(1, min(5, len(pool))))
        res, used, high = [], set(), None
        for n in ns:
            v = ""
            if rng.random() < 0.4:
                x = rng.choice([0, 1, 2, 5, 10, 7, 100]) if rng.random() < 0.8 else rng.randint(0, 50)
                if self.kind == "enumeration" and rng.random() < 0.2:
                    x = -x - 1
                if x not in used:
                    v = str(x)
            if not v:
                x = 0 if high is None else high + 1
                if x in used:
                    continue
            used.add(x)
            high = x if high is None else max(high, x)
            res.append([n, v, rng.random() < 0.9, x])
        return res

    def layers(self, b, fd, n):
        rng = self.rng
        ly = []
        if b in INTR or b == "decimal64":
            iv = [list(INTR["int64" if b == "decimal64" else b])]
            for i in range(n):
                y = layer()
                if rng.random() < 0.7 and iv is not None:
                    y["rg"], iv = self.range(iv, fd if b == "decimal64" else None)
                ly.append(y)
        elif b in ("string", "binary"):
            iv = [[0, 9]]
            first = True
            if rng.random() < 0.1:
                iv = [[0, rng.choice([2 ** 64 - 1, 2 ** 32])]]
            for i in range(n):
                y = layer()
                if rng.random() < 0.6 and iv is not None:
                    y["ln"], iv2 = self.range(iv, None)
                    if first and rng.random() < 0.3:
                        y["ln"] = y["ln"].replace("min", "0").replace("max", str(iv[-1][1]))
                    elif first and iv2 and ("max" in y["ln"]):
                        y["ln"] = y["ln"].replace("max", str(iv[-1][1]))
                    first = False
                    iv = iv2
                if b == "string" and rng.random() < 0.4:
                    y["pt"] = [[ygen.gen_regex(rng), rng.random() < 0.2] for _ in range(rng.choice([1, 1, 2]))]
                ly.append(y)
        elif b in ("enumeration", "bits"):
            self.kind = b
            f = "en" if b == "enumeration" else "bt"
            pool = ["one", "two", "three", "four", "a b", "1", "x.y", " é"[1:]] if b == "enumeration" else \
                ["x", "y", "z", "w-1", "q.2", "_u"]
            cur = self.names(pool)
            ly.append(layer(**{f: [c[:3] for c in cur]}))
            for i in range(n - 1):
                y = layer()
                if rng.random() < 0.6 and cur:
                    cur = rng.sample(cur, rng.randint(1, len(cur)))
                    es = [[c[0], str(c[3]) if rng.random() < 0.5 else "", rng.random() < 0.95] for c in cur]
                    if rng.random() < 0.12:
                        if rng.random() < 0.5:
                            es.append([rng.choice([p for p in pool + ["new"] if p not in [c[0] for c in cur]]), "", True])
                        else:
                            e = rng.choice(es)
                            e[1] = str(int(e[1] or 0) + 51)
                    y[f] = es
                ly.append(y)
        else:
            ly = [layer() for _ in range(n)]
        return ly

    def type(self, depth=0):
        rng = self.rng
        b = rng.choice(OUT)
        while b == "union" and depth > 1:
            b = rng.choice(OUT)
        if b == "int":
            b = rng.choice(INTS)
        n = rng.choice([1, 1, 2, 2, 3, 4]) if depth == 0 else rng.choice([1, 1, 2])
        fd = 0
        if b == "decimal64":
            fd = rng.choice([1, 1, 2, 2, 3, 5, 9, 17, 18]) if rng.random() < 0.97 else rng.choice([0, 19])
        w = {"b": b, "fd": fd, "bases": [], "u": [], "ly": []}
        if b == "union":
            w["u"] = [self.type(depth + 1) for _ in range(rng.randint(1, 3))]
        elif b == "identityref":
            w["bases"] = [x[:2] for x in rng.sample(IDS[:6], rng.choice([1, 1, 1, 2]))]
        w["ly"] = self.layers(b, fd or 1, n)
        return w


class Render:
    def __init__(self, rng, w):
        self.rng = rng
        self.defs = {"m1": [], "m2": []}
        self.n = 0
        self.df = []
        self.local = []
        self.top = ""

    def restr(self, w, y, mod):
        rng, first = self.rng, y is w["ly"][0]
        t = []
        q = ygen.q
        if y["rg"]:
            t.append(f"range {q(y['rg'])};")
        if y["ln"]:
            t.append(f"length {q(y['ln'])};")
        for r, inv in y["pt"]:
            t.append(f"pattern {q(ygen.regex_text(r))}" + (" { modifier invert-match; }" if inv else ";"))
        for n, v, on in y["en"]:
            s = (f" value {v};" if v else "") + self.feature(on, mod, first)
            t.append(f"enum {q(n)}" + (f" {{{s} }}" if s else ";"))
        for n, v, on in y["bt"]:
            s = (f" position {v};" if v else "") + self.feature(on, mod, first)
            t.append(f"bit {n}" + (f" {{{s} }}" if s else ";"))
        return t

    def feature(self, on, mod, first):
        """Condition; features have the same names in both modules."""
        if on and self.rng.random() < (.8 if first else .5):
            return ""
        mine, other = ("fa", "fb") if mod == "m1" else ("fb", "fa")     # supported by m1: fa, by m2: fb
        own = self.rng.choice(["b1:", ""]) if mod == "m1" else self.rng.choice(["b2:", ""])
        c = [own + (mine if on else other)] + (["b1:" + ("fa" if on else "fb")] if mod == "m2" else [])
        return f" if-feature {ygen.q(self.rng.choice(c))};"

    def base(self, w, y, mod):
        t = self.restr(w, y, mod)
        if w["b"] == "decimal64":
            t.append(f"fraction-digits {w['fd']};")
        for n, m in w["bases"]:
            t.append(f"base {'' if m == mod else 'b1:' if mod == 'm2' else 'xx:'}{n};")
        for u in w["u"]:
            t.append(self.chain(u, mod, False))
        self.rng.shuffle(t) if not w["u"] and not y["en"] and not y["bt"] else None
        return f"type {w['b']}" + (" { " + " ".join(t) + " }" if t else ";")

    def chain(self, w, mod, top):
        """Text of the type statement to be used in module `mod`."""
        rng = self.rng
        n = len(w["ly"])
        mods = ["m1" if mod == "m1" or rng.random() < 0.4 else "m2"]
        if any(m == "m2" for f in flat(w) for _, m in f["bases"]):
            mods = ["m2"]
        for _ in range(n - 1):
            mods.append("m1" if mods[-1] == "m1" and (mod == "m1" or rng.random() < 0.4) else "m2")
        mods[-1] = mod
        if mod == "m1":
            mods = ["m1"] * n
        cur = self.base(w, w["ly"][0], mods[0])
        for i in range(1, n):
            self.n += 1
            nm = f"t{self.n}"
            d = ""
            if top and w["b"] not in ("identityref", "empty") and rng.random() < 0.35:
                x = default_text(rng, w)
                if x is not None:
                    d = f" default {ygen.q(x)};"
                    self.df.append(x)
            where = self.local if top and mods[i - 1] == "m2" and rng.random() < 0.3 and i == n - 1 else \
                self.defs[mods[i - 1]]
            where.append(f"typedef {nm} {{ {cur}{d} }}")
            p = "" if mods[i] == mods[i - 1] and rng.random() < 0.7 else "b1:" if mods[i - 1] == "m1" and mods[i] == "m2" \
                else "b1:" if mods[i - 1] == "m1" else "b2:"
            t = self.restr(w, w["ly"][i], mods[i])
            if top:
                self.top = nm
            cur = f"type {p}{nm}" + (" { " + " ".join(t) + " }" if t else ";")
        return cur


def default_text(rng, w):
    c = [v for v in lexicals(rng, w, 6) if isinstance(v, str) and v != ""]
    if w["b"] in INTR and rng.random() < 0.5:
        c = ["0x1F", "017", "-0x2", "0", "+010", "0xff", "7", "00"]
    return rng.choice(c) if c else None


def flat(w):
    return [x for u in w["u"] for x in flat(u)] if w["b"] == "union" else [w]


def numbers(rng, w):
    import re
    fd = (w["fd"] or 1) if w["b"] == "decimal64" else None
    base = INTR["int64" if fd else w["b"]]
    ps = {base[0], base[1], base[0] - 1, base[1] + 1, 0, 1, -1, rng.randint(-20, 300), rng.randint(*base)}
    for y in w["ly"]:
        for x in re.findall(r"-?\d+(?:\.\d+)?", y["rg"].replace("..", " ")):
            d = decimal.Decimal(x)
            if fd:
                d = d.scaleb(fd)
            if d == d.to_integral_value():
                ps |= {int(d) + k for k in (-1, 0, 0, 1)}
    return sorted(ps)


def lexicals(rng, w, n):
    """Candidate lexical forms for a type without union."""
    b = w["b"]
    res = []
    for _ in range(n):
        if b in INTR or b == "decimal64":
            fd = w["fd"] if b == "decimal64" else None
            x = fmt(rng.choice(numbers(rng, w)), (fd or 1) if b == "decimal64" else None)
            k = rng.random()
            if k < 0.1:
                x = "+" + x
            elif k < 0.17:
                x = x.replace("-", "-0") if x[0] == "-" else "0" + x
            elif k < 0.24:
                x = rng.choice([" " + x, x + " ", "\n" + x + "\t"])
            elif k < 0.3 and fd:
                x = x + "0" if "." in x else x + rng.choice([".0", ".", ".00"])
            elif k < 0.4:
                x = rng.choice(["", " ", "-", "+", "0x10", "1e2", "1_0", "٣", "--1", "1.0", ".5", "5.", "-0", "NaN", "Infinity",
                                "1 2", "0.0", "1,0", "²", "-0.0", "1e-3", "inf"])
            res.append(x)
        elif b == "string":
            k = rng.random()
            pts = [p for y in w["ly"] for p in y["pt"]]
            if pts and k < 0.6:
                s = ygen.regex_sample(rng, rng.choice(pts)[0])
                if rng.random() < 0.3:
                    i = rng.randint(0, len(s))
                    s = s[:i] + rng.choice("ab x\n") + s[i:]
                res.append(s)
            elif k < 0.8:
                res.append("".join(rng.choice("abxyé Ω😀") for _ in range(rng.randint(0, 11))))
            else:
                res.append(rng.choice(ygen.STRS))
        elif b == "enumeration":
            c = [e[0] for y in w["ly"] for e in y["en"]]
            x = rng.choice(c + c + ["none", "", "One", "0"])
            res.append(rng.choice([x] * 5 + [" " + x, x + " ", x.upper()]))
        elif b == "bits":
            c = sorted({e[0] for y in w["ly"] for e in y["bt"]}) + (["bad"] if rng.random() < 0.15 else [])
            xs = rng.sample(c, rng.randint(0, len(c)))
            res.append(rng.choice([" ", " ", "  ", "\n"]).join(xs))
            if rng.random() < 0.1:
                res[-1] = rng.choice([" ", "x,y", "x  x", " x", "X"])
        elif b == "binary":
            s = base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.randint(0, 10)))).decode()
            if rng.random() < 0.3:
                s = rng.choice([s.rstrip("="), s + "=", s[:-1], s.replace("/", "_"), s + "\n", "=" + s, s + "QQ==", s[1:],
                                "Q===", "QQ=", "QR==", "é", "QQ==QQ==", "=", "A", "AA", "AAA", "!!!!"])
            res.append(s)
        elif b == "boolean":
            res.append(rng.choice(["true", "false", "true", "false", "True", "1", "0", "", "TRUE", " true", "yes"]))
        elif b == "empty":
            res.append(rng.choice(["", "", "x", " ", "null"]))
        elif b == "identityref":
            i = rng.choice(IDS)
            res.append(rng.choice([i[0], f"{i[1]}:{i[0]}", f"{i[1]}:{i[0]}", f"b1:{i[0]}", f"m3:{i[0]}", ":" + i[0], i[0] + ":",
                                   f"{i[1]}:{i[0]}:x", "", f"m2:{i[0]}"]))
    return res


def is_num(x):
    try:
        int(x)
        return x.isascii() and "_" not in x
    except ValueError:
        return False


def jsons(rng, w, n):
    res = []
    for x in lexicals(rng, w, n):
        k = rng.random()
        if w["b"] in INTR and k < 0.6 and is_num(x):
            res.append(int(x))
        elif w["b"] == "boolean" and k < 0.5:
            res.append(rng.choice([True, False]))
        elif w["b"] == "empty" and k < 0.6:
            res.append(rng.choice([[None], [None], [], [None, None], [[None]], [0], [False]]))
        elif k < 0.85:
            res.append(x)
        else:
            res.append(rng.choice([None, True, False, 0, 1, -1, 5, "", "true", "1", [], [None], ["x"], {}, {"a": 1}, 1.5, [1],
                                   127, 256, 2 ** 31, 2 ** 63, 10 ** 30]))
    return res


def jtag(x):
    if x is None:
        return ["null"]
    if isinstance(x, bool):
        return ["bool", "true" if x else "false"]
    if isinstance(x, int):
        return ["num", str(x)]
    if isinstance(x, float):
        return ["flt"]
    if isinstance(x, str):
        return ["str", x]
    if isinstance(x, list):
        return ["arr", [jtag(y) for y in x]]
    return ["obj"]


def natives(rng, w, n):
    D = decimal.Decimal
    res = []
    for _ in range(n):
        b = w["b"]
        k = rng.random()
        if k < 0.5 and (b in INTR or b == "decimal64"):
            x = rng.choice(numbers(rng, w))
            res.append(x if b in INTR else D(x).scaleb(-w["fd"]))
        elif k < 0.5 and b in ("string", "enumeration"):
            res.append(rng.choice(lexicals(rng, w, 1)))
        elif k < 0.5 and b == "identityref":
            res.append(tuple(rng.choice(IDS)[:2]))
        elif k < 0.5 and b == "binary":
            res.append(bytes(rng.randint(0, 10)))
        else:
            res.append(rng.choice([0, 1, -1, 5, True, False, None, "", "x", "one", "1", (None,), b"", b"ab", D("1"), D("0"),
                                   D("1.25"), D("-7"), ("x",), (), ("i1", "m1"), ("i0", "m1"), ("i1", "m9"), 1.0, 2 ** 63, 10 ** 40,
                                   D(10) ** 20, D("NaN"), D("Infinity")]))
    return res


def digest(dm, path, w):
    """The digest of the type of a leaf, numbers scaled to integers."""
    d = json.loads(dm.schema_digest())
    for x in path.split("/")[1:]:
        d = d["children"][x]
    d = d["type"]
    scale = decimal.Decimal(10) ** (w["fd"] if w["b"] == "decimal64" else 0)

    def num(x):
        with decimal.localcontext() as c:
            c.prec = 60
            n = decimal.Decimal(x) * scale
        return str(int(n)) if n == int(n) else str(x)
    ends = lambda k: [[num(x[0]), num(x[-1])] for x in d[k]] if k in d else []
    return {"base": d["base"], "derived": d.get("derived", ""), "range": ends("range"), "length": ends("length"),
            "pats": len(d.get("patterns", [])), "npats": len(d.get("neg_patterns", [])), "fd": d.get("fraction_digits", 0),
            "enums": d.get("enums", []), "bits": ["" if x is None else x for x in d.get("bits", [])],
            "ids": [list(x) for x in d.get("identities", [])],
            "keys": sorted(d)}


def types(rng, payload):
    ev = []
    for _ in range(payload["types"]):
        g = TGen(rng)
        w = g.type()
        gid = str(rng.random())
        r = Render(rng, w)
        if any(x["fd"] in (0, 19) and x["b"] == "decimal64" for x in flat(w)):
            pass
        body = r.chain(w, "m2", True)
        leaf = f"leaf x {{ {body} }}"
        path = "/m2:x"
        ids = {m: [f"identity {n} {{ " + " ".join(
            f"base {'' if bm == m else 'b1:'}{bn};" for bn, bm in bs) + " }" for n, mm, bs in IDS if mm == m]
            for m in ("m1", "m2")}
        if r.local or rng.random() < 0.2:
            leaf = "container c { " + " ".join(r.local) + f" container d {{ {leaf} }} }}"
            path = "/m2:c/d/x"
        texts = {"m1": models.header("m1", "b1", ["feature fa;", "feature fb;"] + ids["m1"] + r.defs["m1"]),
                 "m2": models.header("m2", "b2", ["feature fa;", "feature fb;"] + ids["m2"] + r.defs["m2"] + [leaf], imports=[("m1", "b1")])}
        e = {"op": "type", "g": gid, "ty": w, "idents": IDS, "ctx": {"md": "m2"}, "df": r.df, "dfv": [], "num": [],
             "text": texts}
        ev.append(e)
        try:
            dm = models.load(texts, features={"m1": ["fa"], "m2": ["fb"]})
            n = dm.get_data_node(path)
            t = n.type
        except RecursionError:
            raise
        except Exception as ex:
            e["out"] = ["err", type(ex).__name__, isinstance(ex, YangsonException)]
            continue
        e["out"] = ["ok"]
        if w["b"] == "enumeration":
            e["num"] = [[k, v] for k, v in t.sorted_enums()]
        elif w["b"] == "bits":
            e["num"] = [[k, v] for k, v in t.sorted_bits()]
        if r.df and n.default is not None:
            e["dfv"] = [str(t.canonical_string(n.default))]
        if payload.get("digest"):
            x = {"op": "digest", "g": gid, "ty": w, "idents": IDS, "tn": r.top, "text": texts["m2"]}
            try:
                x["out"] = ["yes", digest(dm, path, w)]
            except Exception as ex:
                x["out"] = ["err", type(ex).__name__ + " " + str(ex)[:100]]
            ev.append(x)
        fl = flat(w)
        for _ in range(payload["values"]):
            m = rng.choice(fl)
            how = rng.choice(["text", "text", "json", "json", "xml", "native"])
            v = None
            try:
                if how == "native":
                    x = natives(rng, m, 1)[0]
                    p = proj(x)
                    if p == ["e"]:
                        p = ["e"]
                    ev.append({"op": "val", "g": gid, "how": how, "in": p, "out": ["err", "?"]})
                    ev[-1]["out"] = ["yes"] if x in t else ["no"]
                    continue
                if rng.random() < 0.01:
                    x = rng.choice(["", "a"]) + rng.choice("\0\x01\x08\x0b\x0c\x0e\x1f\ud800\udfff\ufffe\uffff\ufdd0\ufdef") \
                        + rng.choice(["", "b"])
                    ev.append({"op": "val", "g": gid, "how": "illegal", "in": "U+%04X" % max(map(ord, x)), "out": ["err", "?"]})
                    v = t.from_raw(x)
                    ev[-1]["out"] = ["no"] if v is None or v not in t else ["yes"]
                    continue
                if how == "json":
                    x = jsons(rng, m, 1)[0]
                    ev.append({"op": "val", "g": gid, "how": how, "in": jtag(x), "out": ["err", "?"]})
                    v = t.from_raw(x)
                elif how == "text":
                    x = lexicals(rng, m, 1)[0]
                    ev.append({"op": "val", "g": gid, "how": how, "in": x, "out": ["err", "?"]})
                    v = t.parse_value(x)
                else:
                    x = lexicals(rng, m, 1)[0]
                    if any(f["b"] == "identityref" for f in fl) and ":" in x:
                        ev.append({"op": "val", "g": gid, "how": "text", "in": "", "out": ["no"]})
                        ev.pop()
                        continue
                    ev.append({"op": "val", "g": gid, "how": how, "in": x, "out": ["err", "?"]})
                    el = ET.Element("x")
                    el.text = x or None
                    v = t.from_xml(el)
                if v is None or v not in t:
                    ev[-1]["out"] = ["no"]
                    continue
                c = t.canonical_string(v)
                ev[-1]["out"] = ["yes", proj(v), str(c), t.parse_value(c) == v, t.from_raw(t.to_raw(v)) == v]
            except RecursionError:
                raise
            except Exception as ex:
                ev[-1]["out"] = ["err", type(ex).__name__ + " " + str(ex)[:100]]
    return ev
