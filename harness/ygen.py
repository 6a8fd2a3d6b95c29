"""Random abstract schemas, their YANG rendering, random instances.

The abstract schema is a table of nodes (1-based ids, node 1 is the root) that
is handed to the TLA+ specification as it is; the YANG text is only what the
library under test sees.  Nothing in here decides a verdict.
"""
import json
import os
import shutil
import tempfile

from values import type_has, raw as raw_scalar, text as text_scalar, INTR

DATA = ("container", "list", "leaf", "leaf-list", "anydata")


class Schema:
    def __init__(self, mods=("m1", "m2")):
        self.mods = list(mods)
        self.nodes = [None]
        self.idents = []          # (name, mod, [bases as (name, mod)])
        self.surface = None       # rng for surface variation
        self.extra = {m: [] for m in mods}     # extra top-level statements
        self.pfx = {}             # prefixes used in each module
        self.keep = []            # modules whose obsolete nodes are kept
        self._tn = 0
        self.add(0, "root", "", "")

    # -- construction ------------------------------------------------------
    def add(self, parent, kind, name, mod, **kw):
        n = dict(k=kind, nm=name, md=mod, p=parent, c=[], cfg=True, mand=False,
                 pres=False, df=[], mn=0, mx=-1, ky=[], uq=[], ty=None, wh=[],
                 whp=[], mu=[], st="", dc=0, sh=False, uo=False,
                 tdf=False, grp="")
        n.update(kw)
        self.nodes.append(n)
        i = len(self.nodes) - 1
        n["id"] = i
        if parent:
            self.nodes[parent]["c"].append(i)
        return i

    def __getitem__(self, i):
        return self.nodes[i]

    def is_data(self, i):
        return self.nodes[i]["k"] in DATA

    def data_parent(self, i):
        p = self.nodes[i]["p"]
        while p and self.nodes[p]["k"] in ("choice", "case"):
            p = self.nodes[p]["p"]
        return p

    def iname(self, i):
        n = self.nodes[i]
        return (n["nm"] if self.nodes[self.data_parent(i)]["md"] == n["md"]
                else n["md"] + ":" + n["nm"])

    def data_kids(self, i):
        res = []
        for c in self.nodes[i]["c"]:
            if self.is_data(c):
                res.append(c)
            elif self.nodes[c]["k"] in ("choice", "case"):
                res += self.data_kids(c)
        return res

    def kid(self, i, name):
        for c in self.data_kids(i):
            if self.iname(c) == name:
                return c
        return 0

    def all_data(self):
        return [i for i in range(2, len(self.nodes)) if self.is_data(i)]

    def ancestors(self, i):
        """Data ancestors from the root (1) down to and including i."""
        res = []
        while i:
            res.append(i)
            i = self.data_parent(i)
        return res[::-1]

    def depth(self, i):
        return len(self.ancestors(i))

    # -- for the specification ---------------------------------------------
    def to_tla(self):
        res = []
        for n in self.nodes[1:]:
            m = {k: n[k] for k in ("k", "nm", "md", "p", "c", "cfg", "mand", "pres",
                                   "df", "mn", "mx", "ky", "uq", "wh", "whp", "mu",
                                   "st", "dc")}
            m["ty"] = type_tla(n["ty"]) if n["ty"] else {"b": "none"}
            i = n["id"]
            m["dp"] = self.data_parent(i)
            m["in"] = self.iname(i) if n["k"] in DATA else n["nm"]
            m["dk"] = self.data_kids(i)
            if i == 1:
                m["keep"] = self.keep
            res.append(m)
        return res

    # -- YANG ----------------------------------------------------------------
    def prefix(self, mod, cur):
        """Prefix of module mod in the text of module cur."""
        if cur not in self.pfx:
            ps = ["p" + m[1:] for m in self.mods]
            if self.surface and self.surface.random() < .4:
                ps = self.surface.sample(ps + ["q"], len(ps))
            self.pfx[cur] = dict(zip(self.mods, ps))
        return self.pfx[cur][mod]

    def yang(self):
        """Module texts."""
        out = {}
        augs = {m: [] for m in self.mods}
        tops = {m: [] for m in self.mods}
        self._grps = {m: [] for m in self.mods}
        self._devs = {m: [] for m in self.mods}
        self._ngrp = 0
        body = {m: [] for m in self.mods}
        for c in self.nodes[1]["c"]:
            tops[self.nodes[c]["md"]].append(c)
        for m in self.mods:
            body[m] += self._render_kids(tops[m], m, 1, augs)
        # augments: render until no more are produced
        done = {m: 0 for m in self.mods}
        for _ in range(50):
            progress = False
            for m in self.mods:
                while done[m] < len(augs[m]):
                    tgt, kids = augs[m][done[m]]
                    done[m] += 1
                    progress = True
                    whp = [w for w in self.nodes[kids[0]].get("awh", [])]
                    body[m].append(f'augment "{self.schema_path(tgt, m)}" {{')
                    for w in whp:
                        body[m].append(f"  when {q(xtext(w, self, m))};")
                    body[m] += ["  " + x for x in self._render_kids(kids, m, tgt, augs, True)]
                    body[m].append("}")
            if not progress:
                break
        for k, m in enumerate(self.mods):
            ls = [f"module {m} {{", "  yang-version 1.1;",
                  f'  namespace "urn:{m}";', f"  prefix {self.prefix(m, m)};"]
            for o in self.mods[:k]:
                ls.append(f"  import {o} {{ prefix {self.prefix(o, m)}; }}")
            ls.append("  revision 2024-01-01;")
            for nm, md, bases in self.idents:
                if md == m:
                    if bases:
                        ls.append(f"  identity {nm} {{")
                        for b in bases:
                            ls.append(f"    base {self.ref(b[0], b[1], m)};")
                        ls.append("  }")
                    else:
                        ls.append(f"  identity {nm};")
            ls += ["  " + x for x in self.extra[m]]
            for g in self._grps[m]:
                ls += ["  " + x for x in g]
            ls += ["  " + x for x in body[m] + self._devs[m]]
            ls.append("}")
            out[m] = "\n".join(ls) + "\n"
        return out

    def ref(self, name, mod, cur):
        return name if mod == cur else f"{self.prefix(mod, cur)}:{name}"

    def schema_path(self, i, cur):
        res = []
        while i != 1:
            n = self.nodes[i]
            res.append(f"/{self.prefix(n['md'], cur)}:{n['nm']}")
            i = n["p"]
        return "".join(reversed(res))

    def _render_kids(self, kids, mod, parent, augs, inaug=False):
        out = []
        own = [c for c in kids if self.nodes[c]["md"] == mod]
        others = {}
        for c in kids:
            if self.nodes[c]["md"] != mod:
                others.setdefault(self.nodes[c]["md"], []).append(c)
        for m, cs in others.items():
            self._queue_aug(m, parent, cs, augs)
        for c in own:
            n = self.nodes[c]
            if inaug:
                out += self._render(c, mod, augs)
                continue
            if self.surface is not None and parent != 1 and not n.get("awh") \
                    and self.surface.random() < 0.07 and n["k"] != "case" \
                    and self.nodes[parent]["k"] in ("container", "list"):
                self._queue_aug(mod, parent, [c], augs)     # same-module augment
                continue
            if n.get("awh"):
                # conditional group: "when" on uses or on an augment
                if parent != 1 and self.nodes[parent]["k"] in ("container", "list") \
                        and n.get("via") == "augment":
                    self._queue_aug(mod, parent, [c], augs)
                    continue
                g = self._grouping([c], mod, augs)
                out.append(f"uses {g} {{")
                for w in n["awh"]:
                    out.append(f"  when {q(xtext(w, self, mod))};")
                out.append("}")
                continue
            if self.surface is not None and self.surface.random() < 0.1 and \
                    self.nodes[parent]["k"] not in ("choice",) and n["k"] != "case":
                g = self._grouping([c], mod, augs)
                out.append(f"uses {g};")
                continue
            out += self._render(c, mod, augs)
        return out

    def _queue_aug(self, m, parent, cs, augs):
        plain = [c for c in cs if not self.nodes[c].get("awh")]
        if plain:
            augs[m].append((parent, plain))
        for c in cs:
            if self.nodes[c].get("awh"):
                augs[m].append((parent, [c]))

    def _grouping(self, kids, mod, augs):
        self._ngrp += 1
        g = f"g{self._ngrp}"
        ls = [f"grouping {g} {{"]
        if self.surface is not None and self.surface.random() < .1:
            ls.append(f"  status {self.surface.choice(['deprecated', 'obsolete'])};")
        for c in kids:
            ls += ["  " + x for x in self._render(c, mod, augs)]
        ls.append("}")
        self._grps[mod].append(ls)
        return g

    def _render(self, i, mod, augs):
        n = self.nodes[i]
        k = n["k"]
        if k == "case" and n["sh"] and len(n["c"]) == 1:
            return self._render(n["c"][0], mod, augs)
        ls = [f"{k} {n['nm']} {{"]
        for w in n["wh"] if k in DATA else [x for x in n["whp"] if x not in n.get("awh", [])]:
            ls.append(f"  when {q(xtext(w, self, mod))};")
        for ft in n.get("iff", []):
            ls.append(f"  if-feature {q(ft)};")
        if k == "list" and n["ky"]:
            ls.append("  key " + q(" ".join(
                self.ref(self.nodes[x]["nm"], self.nodes[x]["md"], mod) for x in n["ky"])) + ";")
        for u in n["uq"]:
            ls.append("  unique " + q(" ".join(self._upath(x, i, mod) for x in u)) + ";")
        if n["ty"]:
            ls += ["  " + x for x in self._render_type(n["ty"], mod,
                                                       n["df"] if n["tdf"] else None)]
        for m in n["mu"]:
            t = f"  must {q(xtext(m['x'], self, mod))}"
            if m.get("tag") or m.get("msg"):
                t += " {"
                if m.get("tag"):
                    t += f" error-app-tag {q(m['tag'])};"
                if m.get("msg"):
                    t += f" error-message {q(m['msg'])};"
                ls.append(t + " }")
            else:
                ls.append(t + ";")
        if n["df"] and not n["tdf"] and self.surface and self.surface.random() < (.4 if has_base(n["ty"], "identityref") else .08):
            m2 = self.surface.choice((self.mods[self.mods.index(mod) + 1:] or [mod]) + [mod])
            self._devs[m2] += [f"deviation {q(self.schema_path(i, m2))} {{", "  deviate add {"] + \
                ["    default " + q(self.dtext(d, n["ty"], m2)) + ";" for d in n["df"]] + ["  }", "}"]
        elif n["df"] and not n["tdf"]:
            for d in n["df"]:
                ls.append("  default " + q(self.dtext(d, n["ty"], mod)) + ";")
        if n["dc"]:
            ls.append(f"  default {self.ref(self.nodes[n['dc']]['nm'], self.nodes[n['dc']]['md'], mod)};")
        par = n["p"]
        if n["cfg"] != self.nodes[par]["cfg"] and k != "case":
            ls.append(f"  config {'true' if n['cfg'] else 'false'};")
        if n["mand"]:
            ls.append("  mandatory true;")
        if n["pres"]:
            ls.append('  presence "p";')
        if n["mn"]:
            ls.append(f"  min-elements {n['mn']};")
        if n["mx"] >= 0:
            ls.append(f"  max-elements {n['mx']};")
        if n["uo"]:
            ls.append("  ordered-by user;")
        if n["c"]:
            ls += ["  " + x for x in self._render_kids(n["c"], mod, i, augs)]
        if n["st"]:
            ls.insert(1 if self.surface and self.surface.random() < .5 else len(ls), f"  status {n['st']};")
        if len(ls) == 1:
            return [f"{k} {n['nm']};"]
        ls.append("}")
        return ls

    def dtext(self, v, ty, mod):
        if v[0] == "t" and len(v[1]) == 2 and has_base(ty, "identityref") and \
                any(v[1] == list(x) for x in all_ids(ty)):
            return self.ref(v[1][0], v[1][1], mod)
        return text_scalar(v)

    def _upath(self, x, lst, mod):
        ps = []
        while x != lst:
            ps.append(self.ref(self.nodes[x]["nm"], self.nodes[x]["md"], mod))
            x = self.data_parent(x)
        return "/".join(reversed(ps))

    def _render_type(self, ty, mod, tdf=None):
        if tdf is not None:
            self._tn += 1
            nm = f"td{self._tn}"
            # the typedef may belong to any of the modules imported here
            host = self.surface.choice(self.mods[:self.mods.index(mod) + 1]) if self.surface else mod
            if has_base(ty, "leafref") or \
                    not {x[1] for x in type_names(ty, tdf[0])} <= set(self.mods[:self.mods.index(host) + 1]):
                host = mod
            self._grps[host].append(
                [f"typedef {nm} {{"] + ["  " + x for x in self._render_type(ty, host)] +
                ["  default " + q(self.dtext(tdf[0], ty, host)) + ";", "}"])
            return [f"type {self.ref(nm, host, mod)};"]
        b = ty["b"]
        sub = []
        if b in INTR and ty.get("rg"):
            sub.append("range " + q(" | ".join(
                str(x) if x == y else f"{x}..{y}" for x, y in ty["rg"])) + _tag(ty.get("tg")))
        if b == "string" and ty.get("ln"):
            sub.append("length " + q(" | ".join(
                str(x) if x == y else f"{x}..{y}" for x, y in ty["ln"])) + _tag(ty.get("tg")))
        for p in ty.get("pt", []):
            sub.append("pattern " + q(regex_text(p[0])) + _tag(p[2], p[1]))
        if b == "enumeration":
            sub += [f"enum {q(e)};" if x is None else f"enum {q(e)} {{ value {x}; }}"
                    for e, x in zip(ty["en"], ty.get("ex", [None] * len(ty["en"])))]
        if b == "bits":
            sub += [f"bit {e};" for e in ty["bt"]]
        if b == "decimal64":
            sub.append(f"fraction-digits {ty['fd']};")
        if b == "identityref":
            sub += [f"base {self.ref(x[0], x[1], mod)};" for x in ty["bases"]]
        if b == "union":
            for u in ty["u"]:
                sub += self._render_type(u, mod)
        if b == "leafref":
            sub.append("path " + q(xtext(ty["path"], self, mod)) + ";")
        if b in ("leafref", "instance-identifier"):
            x = self.surface.random() if self.surface else 1
            if x < .3:      # a derived type that restricts or lifts the restriction
                self._tn += 1
                first = self.surface.choice(["", " require-instance true;", " require-instance false;"])
                self._grps[mod].append([f"typedef ti{self._tn} {{", f"  type {b} {{ " + "".join(sub) + first + " }", "}"])
                eff = "false" not in first
                if eff == ty["req"] and x < .15:
                    return [f"type ti{self._tn};"]
                return [f"type ti{self._tn} {{ require-instance {'true' if ty['req'] else 'false'}; }}"]
            if not ty["req"]:
                sub.append("require-instance false;")
            elif x < .4:
                sub.append("require-instance true;")
        if not sub:
            return [f"type {b};"]
        return [f"type {b} {{"] + ["  " + x for x in sub] + ["}"]

    def library(self, features=()):
        return json.dumps({"ietf-yang-library:modules-state": {
            "module-set-id": "x", "module": [
                {"name": m, "revision": "2024-01-01", "namespace": f"urn:{m}",
                 "conformance-type": "implement",
                 **({"yangson-yl:keep-obsolete": True} if m in self.keep else {}),
                 **({"feature": [f for f, mm in features if mm == m]} if features else {})}
                for m in self.mods]}})

    def load(self, features=()):
        """Data model of the library under test."""
        from yangson import DataModel
        d = tempfile.mkdtemp(prefix="yg-")
        try:
            for m, t in self.yang().items():
                with open(os.path.join(d, m + "@2024-01-01.yang"), "w") as f:
                    f.write(t)
            return DataModel(self.library(features), (d,))
        finally:
            shutil.rmtree(d, ignore_errors=True)


def _tag(tag, inv=False):
    """Substatements of a restriction."""
    sub = (" modifier invert-match;" if inv else "") + (f" error-app-tag {q(tag)};" if tag else "")
    return " {" + sub + " }" if sub else ";"


def q(s):
    """YANG double-quoted string."""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def has_base(ty, b):
    return ty["b"] == b or ty["b"] == "union" and any(has_base(u, b) for u in ty["u"]) \
        or ty["b"] == "leafref" and has_base(ty["ty"], b)


def type_names(ty, default=None):
    """Names (with modules) that occur in a definition of the type."""
    r = []
    if default and default[0] == "t" and len(default[1]) == 2 and default[1] in [list(x) for x in all_ids(ty)]:
        r.append(default[1])
    if ty["b"] == "identityref":
        r += ty["bases"]
    return r + [x for u in ty.get("u", []) for x in type_names(u)]


def all_ids(ty):
    if ty["b"] == "identityref":
        return ty["ids"]
    if ty["b"] == "union":
        return [x for u in ty["u"] for x in all_ids(u)]
    if ty["b"] == "leafref":
        return all_ids(ty["ty"])
    return []


def type_tla(ty):
    r = {"b": ty["b"]}
    b = ty["b"]
    if b in INTR:
        # the specification uses small integers: ranges are clipped to 32 bits
        lo, hi = INTR[b]
        rg = ty.get("rg") or [[lo, hi]]
        r["rg"] = [[max(x, -2 ** 31 + 1), min(y, 2 ** 31 - 1)] for x, y in rg]
        r["tg"] = ty.get("tg", "")
    elif b == "string":
        r["ln"] = ty.get("ln") or [[0, 10000]]
        r["tg"] = ty.get("tg", "")
        r["pt"] = ty.get("pt", [])
    elif b == "enumeration":
        r["en"] = ty["en"]
        r["ev"] = ty.get("ev", list(range(len(ty["en"]))))
    elif b == "bits":
        r["bt"] = ty["bt"]
    elif b == "decimal64":
        r["fd"] = ty["fd"]
    elif b == "identityref":
        r["ids"] = [list(x) for x in ty["ids"]]
    elif b == "union":
        r["u"] = [type_tla(u) for u in ty["u"]]
    elif b == "leafref":
        r["ty"] = type_tla(ty["ty"])
        r["req"] = ty["req"]
        r["path"] = ty["path"]
    elif b == "instance-identifier":
        r["req"] = ty["req"]
    return r


# -- XPath rendering ----------------------------------------------------------
PREC = {"or": 0.5, "and": 1, "=": 2, "!=": 2, "<": 3, "<=": 3, ">": 3, ">=": 3,
        "+": 4, "-": 4, "*": 5, "div": 5, "mod": 5}
AXABBR = {"child": "", "parent": None}


def xtext(e, sch, mod, rng=None):
    """Text of an expression; `mod` is the module in which it is written."""
    return _xt(e, sch, mod, 0, rng)


def num_text(n, d):
    if d == 1:
        return str(n)
    k = 0
    while (10 ** k) % d:
        k += 1
    s = str(n * 10 ** k // d).rjust(k + 1, "0")
    return s[:-k] + "." + s[-k:]


def _name(nm, md, sch, mod, rng):
    if md == mod and (rng is None or rng.random() < 0.6):
        return nm
    return f"{sch.prefix(md, mod)}:{nm}"


def _test(st, sch, mod, rng):
    k = st[1]
    if k == "name":
        return _name(st[2], st[3], sch, mod, rng)
    if k == "*":
        return "*"
    return k + "()"


def _step(st, sch, mod, rng):
    ax, k = st[0], st[1]
    preds = "".join("[" + _xt(p, sch, mod, 0, rng) + "]" for p in st[4])
    long = rng is not None and rng.random() < 0.3
    if not preds and not long and k == "node":
        if ax == "parent":
            return ".."
        if ax == "self":
            return "."
    t = _test(st, sch, mod, rng)
    if ax == "child" and not long:
        return t + preds
    return ax + "::" + t + preds


def _steps(steps, sch, mod, rng):
    return "/".join(_step(s, sch, mod, rng) for s in steps)


def _xt(e, sch, mod, prec, rng):
    k = e[0]
    if k == "num":
        return num_text(e[1], e[2])
    if k == "str":
        return f"'{e[1]}'" if '"' in e[1] or rng is None or rng.random() < 0.5 and "'" not in e[1] else f'"{e[1]}"'
    if k == "id":
        return "'" + _name(e[1], e[2], sch, mod, rng) + "'"
    if k == "re":
        t = regex_text(e[1])
        return f"'{t}'" if '"' in t else f'"{t}"'
    if k == "bin":
        p = PREC[e[1]]
        s = (_xt(e[2], sch, mod, p, rng) + f" {e[1]} " + _xt(e[3], sch, mod, p + 1, rng))
        return f"({s})" if p < prec else s
    if k == "neg":
        s = "- " + _xt(e[1], sch, mod, 6, rng)
        return f"({s})" if prec > 6 else s
    if k == "union":
        s = _xt(e[1], sch, mod, 7, rng) + " | " + _xt(e[2], sch, mod, 8, rng)
        return f"({s})" if prec > 7 else s
    if k == "fn":
        return e[1] + "(" + ", ".join(_xt(a, sch, mod, 0, rng) for a in e[2]) + ")"
    if k == "path":
        if e[1] and not e[2] and prec:
            return "(/)"            # "/" followed by "*" or a name is a longer path
        if e[1]:
            return "/" + _steps(e[2], sch, mod, rng)
        return _steps(e[2], sch, mod, rng)
    if k == "filt":
        base = _xt(e[1], sch, mod, 9, rng)
        if e[1][0] != "fn":
            base = f"({base})"
        s = base + "".join("[" + _xt(p, sch, mod, 0, rng) + "]" for p in e[2])
        if e[3]:
            s += "/" + _steps(e[3], sch, mod, rng)
        return s
    raise ValueError(e)


def regex_text(r):
    """XML Schema regular expression of a regex tree (see spec/Text.tla)."""
    k = r[0]
    if k == "chr":
        return "\\" + r[1] if r[1] in "\\|.?*+(){}[]-^$" else r[1]
    if k == "any":
        return "."
    if k == "esc":
        return "\\" + r[1]
    if k == "cls":
        def c1(c):
            return "\\" + c if c in "\\[]-^" else c
        return "[" + ("^" if r[1] else "") + "".join(map(c1, r[2])) + \
            "".join(f"{c1(a)}-{c1(b)}" for a, b in r[3]) + "]"
    if k == "cat":
        return "".join(f"({regex_text(x)})" if x[0] == "alt" else regex_text(x) for x in r[1])
    if k == "alt":
        return "|".join(regex_text(x) for x in r[1])
    if k == "rep":
        t = regex_text(r[1])
        if r[1][0] in ("alt", "cat", "rep"):
            t = f"({t})"
        lo, hi = r[2], r[3]
        return t + {(0, -1): "*", (1, -1): "+", (0, 1): "?"}.get(
            (lo, hi), "{%d}" % lo if lo == hi else "{%d,}" % lo if hi < 0 else "{%d,%d}" % (lo, hi))
    raise ValueError(r)


def gen_regex(rng, depth=2, alphabet="abxy01 -."):
    r = rng.random()
    if depth <= 0 or r < 0.35:
        k = rng.random()
        if k < 0.6:
            return ["chr", rng.choice(alphabet)]
        if k < 0.7:
            return ["any"]
        if k < 0.8:
            return ["esc", rng.choice("dDsS")]
        return ["cls", rng.random() < 0.3, rng.sample(alphabet, rng.randint(1, 3)),
                rng.choice([[], [["a", "f"]], [["0", "9"]], [["A", "Z"], ["x", "z"]]])]
    if r < 0.6:
        return ["cat", [gen_regex(rng, depth - 1, alphabet) for _ in range(rng.randint(2, 3))]]
    if r < 0.75:
        return ["alt", [gen_regex(rng, depth - 1, alphabet) for _ in range(rng.randint(2, 3))]]
    lo, hi = rng.choice([(0, -1), (1, -1), (0, 1), (2, 2), (1, 3), (2, -1)])
    return ["rep", gen_regex(rng, depth - 1, alphabet), lo, hi]


def regex_sample(rng, r, alphabet="abxy01 -."):
    """A string that matches r (most of the time)."""
    k = r[0]
    if k == "chr":
        return r[1]
    if k in ("any", "esc"):
        return rng.choice("01" if k == "esc" and r[1] == "d" else " " if k == "esc" and r[1] == "s"
                          else "ab" if k == "esc" else alphabet)
    if k == "cls":
        c = [x for x in alphabet + "cfZ59" if
             (x in r[2] or any(a <= x <= b for a, b in r[3])) != r[1]]
        return rng.choice(c) if c else "q"
    if k == "cat":
        return "".join(regex_sample(rng, x) for x in r[1])
    if k == "alt":
        return regex_sample(rng, rng.choice(r[1]))
    lo, hi = r[2], r[3]
    return "".join(regex_sample(rng, r[1]) for _ in range(rng.randint(lo, hi if hi >= 0 else lo + 2)))


def child(nm, md, preds=()):
    return ["child", "name", nm, md, list(preds)]


UP = ["parent", "node", "", "", []]
SELF = ["self", "node", "", "", []]


# -- random schemas -----------------------------------------------------------
NAMES = [a + b for a in "abcdefghk" for b in ("", "1", "-x", "_y", ".z")]


class Opts:
    def __init__(self, **kw):
        self.max_depth = 4
        self.max_kids = 5
        self.nodes = 22
        self.mods = ("m1", "m2")
        self.types = ["string", "int8", "int32", "uint16", "int64", "boolean",
                      "enumeration", "decimal64", "bits", "identityref", "empty",
                      "union", "binary"]
        self.leafref = 0.0
        self.instid = 0.0
        self.when = 0.0
        self.gwhen = 0.0
        self.must = 0.0
        self.choice = 0.18
        self.state = 0.15
        self.default = 0.35
        self.mand = 0.2
        self.card = 0.25
        self.unique = 0.3
        self.anydata = 0.03
        self.surface = True
        self.status = 0.0
        self.keyless = 0.5          # of state lists
        self.patterns = 0.2         # of string types
        self.aug = 0.2
        self.dup_names = 0.15
        self.anc_names = 0.06       # a child named as an ancestor
        self.__dict__.update(kw)


def gen_type(rng, sch, o, depth=0, keyish=False, mod=None):
    b = rng.choice(o.types)
    while b == "empty" and keyish or b == "union" and depth > 1 or \
            b == "identityref" and not sch.idents:
        b = rng.choice(o.types)
    if b in INTR:
        rg = []
        lo, hi = INTR[b]
        if rng.random() < 0.4:
            pts = sorted(rng.sample(range(-9 if lo < 0 else 0, 30), 4))
            rg = [[pts[0], pts[1]], [pts[2], pts[3]]] if rng.random() < 0.5 else [[pts[0], pts[3]]]
        return {"b": b, "rg": rg, **error_tag(rng, rg)}
    if b == "string":
        ln = []
        if rng.random() < 0.3:
            x = rng.randrange(0, 3)
            ln = [[x, x + rng.randrange(0, 4)]]
        ty = {"b": b, "ln": ln, **error_tag(rng, ln)}
        if rng.random() < o.patterns:
            for _ in range(6):
                pt = [[gen_regex(rng, 2, "abfotx01 -."), rng.random() < .4, error_tag(rng, 1).get("tg", "")]
                      for _ in range(rng.choice([1, 1, 2]))]
                if sum(type_has(dict(ty, pt=pt), ["s", x]) for x in STRS) > 2:
                    ty["pt"] = pt
                    break
        return ty
    if b == "enumeration":
        en = rng.sample(["one", "two", "three", "a b", "0"], rng.randrange(2, 5))
        ty = {"b": b, "en": en}
        if rng.random() < 0.4:      # some numbers are stated
            ev, ex = [], []
            for _ in en:
                auto = max(ev) + 1 if ev else 0
                x = rng.choice([-7, -1, 0, 3, 4, 11, 20]) if rng.random() < 0.6 else None
                if x in ev:
                    x = None
                ev.append(auto if x is None else x)
                ex.append(x)
            ty.update(ev=ev, ex=ex)
        return ty
    if b == "bits":
        return {"b": b, "bt": rng.sample(["x", "y", "z", "w-1"], rng.randrange(2, 4))}
    if b == "decimal64":
        return {"b": b, "fd": rng.randrange(1, 4)}
    if b == "identityref":
        base = rng.choice([x for x in sch.idents if mod is None or
                           sch.mods.index(x[1]) <= sch.mods.index(mod)])[:2]
        return {"b": b, "bases": [base], "ids": derived(sch, base)}
    if b == "union":
        us = [gen_type(rng, sch, o, depth + 1, keyish, mod) for _ in range(rng.randrange(2, 4))]
        return {"b": b, "u": us}
    return {"b": b}


def error_tag(rng, restriction):
    return {"tg": rng.choice(["tag-1", "tag-2", "out"])} if restriction and rng.random() < .4 else {}


def derived(sch, base):
    res, ch = set(), True
    while ch:
        ch = False
        for nm, md, bases in sch.idents:
            if (nm, md) not in res and any(tuple(x) == tuple(base) or tuple(x) in res for x in bases):
                res.add((nm, md))
                ch = True
    return [list(x) for x in sorted(res)]


STRS = ["", "x", "y", "foo", "bar", "ab", "a b", "1", "10", "true", "é", "a/b", "a,b",
        "q\"q", "it's", "x=1", "[1]", "%41", "Ω≤"]


def gen_value(rng, ty, small=True):
    """A random member of the value space (None if there is none)."""
    b = ty["b"]
    if b in INTR:
        lo, hi = INTR[b]
        if ty.get("rg"):
            x, y = rng.choice(ty["rg"])
            return ["i", rng.choice([x, y, rng.randint(x, y)])]
        lo = max(lo, -2 ** 31 + 1)
        hi = min(hi, 2 ** 31 - 1)
        return ["i", rng.choice([max(lo, -1), 0, 1, 2, 3, rng.randint(max(lo, -99), min(hi, 99)), hi])]
    if b == "string":
        c = [s for s in STRS if type_has(ty, ["s", s])]
        return ["s", rng.choice(c)] if c else ["s", "z" * ty["ln"][0][0]] if ty.get("ln") and not ty.get("pt") else None
    if b == "boolean":
        return ["b", rng.choice(["true", "false"])]
    if b == "empty":
        return ["e"]
    if b == "enumeration":
        return ["s", rng.choice(ty["en"])]
    if b == "bits":
        return ["t", [x for x in ty["bt"] if rng.random() < 0.5]]
    if b == "decimal64":
        from values import norm_dec
        return norm_dec(rng.choice([0, 1, 5, 10, -25, 314, rng.randint(-999, 999)]), rng.randint(0, ty["fd"]))
    if b == "identityref":
        return ["t", list(rng.choice(ty["ids"]))] if ty["ids"] else None
    if b == "binary":
        return ["x", rng.choice(["", "00", "ff10", "616263"])]
    if b == "union":
        for _ in range(5):
            v = gen_value(rng, rng.choice(ty["u"]))
            if v is not None:
                return v
        return None
    if b == "leafref":
        return gen_value(rng, ty["ty"])
    if b == "instance-identifier":
        return ["r", "/m1:none"]
    raise ValueError(b)


def unambiguous(ty, v):
    """Does the JSON form of v decode to v itself under ty (union order)?"""
    if ty["b"] == "leafref":
        return unambiguous(ty["ty"], v)
    if ty["b"] != "union":
        return True
    from values import raw as rw
    mine = None
    for u in flat_union(ty):
        if type_has(u, v):
            mine = u
            break
    if mine is None:
        return False
    r = rw(v, mine)
    for u in flat_union(ty):
        if u is mine:
            return True
        if raw_fits(u, r):
            return False
    return True


def flat_union(ty):
    if ty["b"] == "union":
        return [x for u in ty["u"] for x in flat_union(u)]
    if ty["b"] == "leafref":
        return flat_union(ty["ty"])
    return [ty]


def raw_fits(u, r):
    """Conservative: could raw value r be decoded by type u?"""
    b = u["b"]
    if b in ("int64", "uint64", "decimal64"):
        return isinstance(r, str) and any(c.isdigit() for c in r)
    if b in INTR:
        return isinstance(r, int) and not isinstance(r, bool)
    if b == "boolean":
        return isinstance(r, bool)
    if b == "empty":
        return isinstance(r, list)
    if b == "string":
        return isinstance(r, str) and type_has(u, ["s", r])
    if b == "enumeration":
        return isinstance(r, str) and r in u["en"]
    if b == "bits":
        return isinstance(r, str) and all(x in u["bt"] for x in r.split())
    if b == "identityref":
        return isinstance(r, str) and any(r in (x[0], f"{x[1]}:{x[0]}") for x in u["ids"])
    if b == "binary":
        return isinstance(r, str)
    return True


def gen_default(rng, ty):
    for _ in range(10):
        v = gen_value(rng, ty)
        if v is not None and unambiguous_text(ty, v):
            return v
    return None


def unambiguous_text(ty, v):
    """Same for the YANG text form."""
    if ty["b"] == "leafref":
        return unambiguous_text(ty["ty"], v)
    if ty["b"] != "union":
        return True
    t = text_scalar(v)
    for u in flat_union(ty):
        if type_has(u, v):
            return True
        if text_fits(u, t):
            return False
    return False


def text_fits(u, t):
    b = u["b"]
    if b in INTR or b == "decimal64":
        return any(c.isdigit() for c in t)
    if b == "boolean":
        return t in ("true", "false")
    if b == "empty":
        return t == ""
    if b == "binary":
        return True
    return raw_fits(u, t)


class Gen:
    def __init__(self, rng, o):
        self.rng, self.o = rng, o
        self.s = Schema(o.mods)
        if o.surface:
            import random
            self.s.surface = random.Random(rng.random())
        self.budget = o.nodes
        if rng.random() < 0.9:
            m = self.s.mods
            ids = [("ib", m[0], []), ("i1", m[0], [("ib", m[0])]), ("i2", m[0], [("i1", m[0])]),
                   ("ic", m[0], [])]
            if len(m) > 1:
                ids += [("i1", m[1], [("ib", m[0]), ("ic", m[0])]), ("i9", m[1], [("i2", m[0])])]
            self.s.idents = ids

    def names(self, dp, mod):
        used = {self.s[c]["nm"] for c in self.s.data_kids(dp) if self.s[c]["md"] == mod}
        used |= {self.s[c]["nm"] for c in self.allnames(dp) if self.s[c]["md"] == mod}
        return used

    def allnames(self, dp):
        res = []
        todo = list(self.s[dp]["c"])
        while todo:
            c = todo.pop()
            res.append(c)
            if self.s[c]["k"] in ("choice", "case"):
                todo += self.s[c]["c"]
        return res

    def fresh(self, dp, mod):
        used = self.names(dp, mod)
        if self.rng.random() < self.o.dup_names:     # same local name in another module
            other = [self.s[c]["nm"] for c in self.s.data_kids(dp)
                     if self.s[c]["md"] != mod and self.s[c]["nm"] not in used]
            if other:
                return self.rng.choice(other)
        if dp != 1 and self.rng.random() < self.o.anc_names:
            n = self.s[self.rng.choice(self.s.ancestors(dp)[1:])]["nm"]
            if n not in used:
                return n
        while True:
            n = self.rng.choice(NAMES)
            if n not in used:
                return n

    def schema(self):
        rng, o, s = self.rng, self.o, self.s
        while True:
            for m in s.mods:
                for _ in range(rng.randint(1, 3) if m == s.mods[0] else rng.randint(0, 1)):
                    self.node(1, m, 1, True)
            if s[1]["c"]:
                break
        self.finish()
        return s

    def node(self, parent, mod, depth, cfg, nomand=False, force=None):
        """Add a random node below `parent` (a container, list, case or root)."""
        rng, o, s = self.rng, self.o, self.s
        self.budget -= 1
        dp = parent if s[parent]["k"] not in ("choice", "case") else s.data_parent(parent)
        # children of another module come from an augment
        if depth > 1 and mod != s.mods[-1] and rng.random() < o.aug:
            mod = s.mods[s.mods.index(mod) + 1]
        foreign = s[parent]["md"] not in ("", mod)
        if cfg and rng.random() < o.state:
            cfg = False
        r = rng.random()
        deep = depth < o.max_depth and self.budget > 0
        if not deep:
            r = o.choice + 0.42 + r * (0.58 - o.choice)
        if force:
            kind = force
        elif deep and r < o.choice and s[parent]["k"] != "choice":
            kind = "choice"
        elif deep and r < o.choice + 0.22:
            kind = "container"
        elif deep and r < o.choice + 0.42:
            kind = "list"
        elif r < o.choice + 0.42 + o.anydata:
            kind = "anydata"
        elif r < o.choice + 0.42 + o.anydata + 0.14:
            kind = "leaf-list"
        else:
            kind = "leaf"
        name = self.fresh(dp, mod)
        i = s.add(parent, kind, name, mod, cfg=cfg)
        n = s[i]
        mand_ok = not nomand and not (foreign and cfg)
        if kind == "choice":
            n["mand"] = mand_ok and rng.random() < o.mand
            for _ in range(rng.randint(1, 4)):
                self.case(i, mod, depth, cfg)
            if not n["mand"] and rng.random() < 0.5:
                n["dc"] = rng.choice(n["c"])
                if s[n["dc"]]["md"] != mod:
                    n["dc"] = 0
        elif kind == "container":
            n["pres"] = rng.random() < 0.3
            for _ in range(rng.randint(0 if depth > 1 else 1, o.max_kids)):
                if self.budget > 0:
                    self.node(i, mod, depth + 1, cfg)
        elif kind == "list":
            nokeys = not cfg and rng.random() < o.keyless
            if not nokeys:
                for _ in range(rng.choice([1, 1, 1, 1, 1, 2, 2, 3])):
                    k = self.leaf(i, mod, cfg, key=True)
                    n["ky"].append(k)
            for _ in range(rng.randint(1 if nokeys else 0, o.max_kids)):
                self.node(i, mod, depth + 1, cfg)
            if rng.random() < 0.3 and n["ky"]:      # keys need not come first
                rng.shuffle(n["c"])
            if rng.random() < o.card:
                n["mn"] = rng.randint(0, 2) if mand_ok else 0
                n["mx"] = max(n["mn"], rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 4])) if rng.random() < 0.7 else -1
            n["uo"] = rng.random() < 0.2
        elif kind == "leaf-list":
            n["ty"] = gen_type(rng, s, o, mod=mod)
            if has_base(n["ty"], "empty"):
                n["ty"] = {"b": "string", "ln": []}
            if rng.random() < o.card:
                n["mn"] = rng.randint(0, 2) if mand_ok else 0
                n["mx"] = max(n["mn"], rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 4])) if rng.random() < 0.7 else -1
            n["uo"] = rng.random() < 0.2
            if not n["mn"] and rng.random() < o.default and (n["mx"] < 0 or n["mx"] > 1):
                d = []
                for _ in range(rng.randint(1, 2)):
                    v = self.default(n["ty"], mod)
                    if v is not None and v not in d:
                        d.append(v)
                n["df"] = d
                n["tdf"] = len(d) == 1 and rng.random() < 0.3
        elif kind == "anydata":
            n["mand"] = mand_ok and rng.random() < o.mand
        else:
            n["ty"] = gen_type(rng, s, o, mod=mod)
            if mand_ok and rng.random() < o.mand:
                n["mand"] = True
            elif rng.random() < o.default and not has_base(n["ty"], "empty"):
                v = self.default(n["ty"], mod)
                if v is not None:
                    n["df"] = [v]
                    n["tdf"] = rng.random() < 0.3
        return i

    def default(self, ty, mod):
        """A default value that can be written in module `mod`."""
        v = gen_default(self.rng, ty)
        if v and v[0] == "t" and len(v[1]) == 2 and v[1][1] in self.s.mods and \
                self.s.mods.index(v[1][1]) > self.s.mods.index(mod):
            return None
        return v

    def leaf(self, parent, mod, cfg, key=False):
        s = self.s
        i = s.add(parent, "leaf", self.fresh(parent, mod), mod, cfg=cfg)
        s[i]["ty"] = gen_type(self.rng, s, self.o, keyish=True, mod=mod)
        if has_base(s[i]["ty"], "empty"):
            s[i]["ty"] = {"b": "string", "ln": []}
        return i

    def case(self, ch, mod, depth, cfg):
        rng, s = self.rng, self.s
        dp = s.data_parent(ch)
        if rng.random() < 0.4:          # short-hand
            i = s.add(ch, "case", "", mod, cfg=cfg, sh=True)
            k = rng.choice(["leaf", "leaf", "leaf-list", "container", "list"])
            if self.budget <= 0 or depth >= self.o.max_depth:
                k = "leaf"
            c = self.node(i, mod, depth + 1, cfg, nomand=True, force=k)
            s[i]["nm"] = s[c]["nm"]
            s[i]["md"] = s[c]["md"]
            return i
        i = s.add(ch, "case", self.fresh(dp, mod), mod, cfg=cfg)
        nomand = False
        for _ in range(rng.randint(1, 3)):
            self.node(i, mod, depth + 1, cfg, nomand=nomand)
        return i

    def finish(self):
        """Second pass: things that refer to other nodes."""
        rng, o, s = self.rng, self.o, self.s
        # default case must not have mandatory nodes of its own
        for i in range(2, len(s.nodes)):
            n = s[i]
            if n["dc"]:
                for c in s.data_kids(n["dc"]):
                    if self.mandatory(c):
                        n["dc"] = 0
                        break
                else:
                    for c in s[n["dc"]]["c"]:
                        if s[c]["k"] == "choice" and s[c]["mand"]:
                            n["dc"] = 0
        for i in s.all_data():
            n = s[i]
            if n["k"] == "list" and rng.random() < o.unique:
                cand = [x for x in s.all_data() if s[x]["k"] == "leaf" and x not in n["ky"]
                        and self.below(i, x) and not has_base(s[x]["ty"], "empty")
                        and self.visible(i, x)]
                if cand:
                    for _ in range(rng.choice([1, 1, 2])):
                        n["uq"].append(rng.sample(cand, min(len(cand), rng.choice([1, 1, 1, 2, 2, 3]))))
        self.targets = set()
        if o.leafref or o.instid:
            for i in s.all_data():
                n = s[i]
                if n["k"] in ("leaf", "leaf-list") and not self.iskey(i) and i not in self.targets:
                    if rng.random() < o.leafref:
                        self.make_leafref(i)
                    elif rng.random() < o.instid:
                        n["ty"] = {"b": "instance-identifier", "req": rng.random() < 0.7}
                        n["df"], n["tdf"] = [], False
        if o.status:
            self.statuses()
        if o.when:
            self.whens()
        if o.must:
            for i in s.all_data():
                if rng.random() < o.must:
                    for _ in range(rng.choice([1, 1, 2])):
                        e = self.cond(i, own=False)
                        if e:
                            m = {"x": e}
                            if rng.random() < 0.5:
                                m["tag"] = rng.choice(["t-one", "t-two"])
                            if rng.random() < 0.5:
                                m["msg"] = "must failed"
                            s[i]["mu"].append(m)
        s.nodes[1]["cfg"] = True

    def mandatory(self, c):
        n = self.s[c]
        if n["k"] in ("leaf", "anydata"):
            return n["mand"]
        if n["k"] in ("list", "leaf-list"):
            return n["mn"] > 0
        if n["k"] == "container" and not n["pres"]:
            return any(self.mandatory(x) for x in self.s.data_kids(c)) or \
                any(self.s[x]["k"] == "choice" and self.s[x]["mand"] for x in n["c"])
        return False

    def iskey(self, i):
        return any(i in n["ky"] for n in self.s.nodes[1:])

    def below(self, lst, x):
        """x is below list entry lst with no list in between."""
        x = self.s.data_parent(x)
        while x and x != lst:
            if self.s[x]["k"] == "list":
                return False
            x = self.s.data_parent(x)
        return x == lst

    def make_leafref(self, i):
        rng, s = self.rng, self.s
        n = s[i]
        cand = [x for x in s.all_data() if s[x]["k"] == "leaf" and x != i and
                s[x]["ty"]["b"] not in ("empty", "instance-identifier", "binary") and
                (s[x]["ty"]["b"] != "union" or rng.random() < .2 and not has_base(s[x]["ty"], "instance-identifier"))
                and s.mods.index(s[x]["md"]) <= s.mods.index(n["md"])
                and all(s.mods.index(s[a]["md"]) <= s.mods.index(n["md"]) for a in s.ancestors(x)[1:])
                and (s[x]["cfg"] or not n["cfg"])]
        if not cand:
            return
        far = [x for x in cand if s[x]["md"] != n["md"] and has_base(s[x]["ty"], "identityref")]
        t = rng.choice(far if far and rng.random() < .3 else cand)
        if rng.random() < 0.4:
            path = ["path", True, [child(s[a]["nm"], s[a]["md"]) for a in s.ancestors(t)[1:]]]
        else:
            path = self.relpath(i, t)
        n["ty"] = {"b": "leafref", "path": path, "req": rng.random() < 0.8, "ty": s[t]["ty"], "tgt": t}
        self.targets.add(t)         # its type is final
        d = gen_default(rng, n["ty"]) if n["df"] and rng.random() < .6 else None
        if d is not None and any(s.mods.index(x[1]) > s.mods.index(n["md"]) for x in type_names(n["ty"], d)):
            d = None            # an identity with no prefix here
        n["df"], n["tdf"] = [d] if d is not None else [], d is not None and rng.random() < .4

    def relpath(self, i, t):
        s = self.s
        a, b = s.ancestors(i), s.ancestors(t)
        k = 0
        while k < len(a) and k < len(b) and a[k] == b[k]:
            k += 1
        if k == len(b):
            k -= 1
        ups = len(a) - k
        return ["path", False, [UP] * ups + [child(s[x]["nm"], s[x]["md"]) for x in b[k:]]]

    # -- conditions -----------------------------------------------------------
    def visible(self, i, x):
        s = self.s
        mi = s.mods.index(s[i]["md"])
        return all(s.mods.index(s[a]["md"]) <= mi for a in s.ancestors(x)[1:])

    def nowhen(self, x):
        """neither x nor an ancestor is conditional, nor inside a choice."""
        s = self.s
        while x and x != 1:
            if s[x]["wh"] or s[x]["whp"]:
                return False
            x = s[x]["p"]
        return True

    def cond(self, i, own=True, ctx=None, stratified=False):
        """A Boolean expression evaluated at node i (or at node ctx)."""
        rng, s = self.rng, self.s
        c = ctx or i
        if rng.random() < 0.25:
            l = self.cond1(i, c, stratified)
            r = self.cond1(i, c, stratified)
            if l and r:
                return ["bin", rng.choice(["and", "or"]), l, r]
            return l or r
        e = self.cond1(i, c, stratified)
        if e and rng.random() < 0.2:
            return ["fn", "not", [e]]
        return e

    def cond1(self, i, c, stratified):
        rng, s = self.rng, self.s
        cand = [x for x in s.all_data() if self.visible(i, x) and x != i and x != c
                and (not stratified or self.nowhen(x) and not self.inside(i, x))
                and len(s.ancestors(x)) <= 5]
        if not cand:
            return None
        near = [x for x in cand if s.data_parent(x) == s.data_parent(c)]
        x = rng.choice(near if near and rng.random() < 0.6 else cand)
        n = s[x]
        p = self.relpath(c, x) if c != 1 else \
            ["path", True, [child(s[a]["nm"], s[a]["md"]) for a in s.ancestors(x)[1:]]]
        r = rng.random()
        if n["k"] == "leaf" and n["ty"]["b"] in ("string", "int8", "int32", "uint16", "boolean",
                                                 "enumeration") and r < 0.65:
            v = gen_value(rng, n["ty"])
            if v[0] == "i" and rng.random() < 0.7:
                lit = ["num", v[1], 1] if v[1] >= 0 else ["neg", ["num", -v[1], 1]]
                return ["bin", rng.choice(["=", "!=", "<", ">=", "=", ">"]), p, lit]
            if v[0] == "s" and ("'" in v[1] or '"' in v[1]):
                v = ["s", "x"]
            return ["bin", rng.choice(["=", "!=", "="]), p, ["str", text_scalar(v)]]
        if r < 0.8:
            return ["fn", "boolean", [p]] if rng.random() < 0.3 else p if rng.random() < 0.5 \
                else ["fn", "not", [p]]
        return ["bin", rng.choice(["=", "<", ">", ">="]), ["fn", "count", [p]], ["num", rng.randint(0, 2), 1]]

    def inside(self, i, x):
        s = self.s
        while x:
            if x == i:
                return True
            x = s[x]["p"]
        return False

    def whens(self):
        """Conditions; their references never depend on conditional nodes."""
        rng, o, s = self.rng, self.o, self.s
        for i in range(len(s.nodes) - 1, 1, -1):
            n = s[i]
            par = s[n["p"]]
            if self.iskey(i) or n["k"] == "case" and n["sh"] or par["k"] == "case" and par["sh"]:
                continue
            if rng.random() >= o.when:
                continue
            # references must not be conditional, and nobody may refer to i: choose
            # references among nodes outside any `tainted' subtree
            if n["k"] in DATA:
                if rng.random() < o.gwhen and par["k"] in ("container", "list", "root"):
                    e = self.cond(i, ctx=s.data_parent(i), stratified=True)
                    if e and self.ok_when(i, e):
                        n["awh"] = [e]
                        n["whp"] = [e]
                        n["via"] = rng.choice(["augment", "uses"])
                        self.taint(i)
                else:
                    e = self.cond(i, stratified=True)
                    if e and self.ok_when(i, e):
                        n["wh"] = [e]
                        self.taint(i)
            elif n["k"] in ("choice", "case"):
                e = self.cond(i, ctx=s.data_parent(i), stratified=True)
                if e and self.ok_when(i, e):
                    n["whp"] = [e]
                    self.taint(i)

    def statuses(self):
        rng, s = self.rng, self.s
        if rng.random() < .5:
            s.keep = [m for m in s.mods if rng.random() < .4]
        for i in range(2, len(s.nodes)):
            n, a, mand = s[i], s[s[i]["p"]], []
            if n["k"] == "case" and n["sh"] or self.iskey(i) or rng.random() > self.o.status:
                continue
            x = rng.choice(["obsolete", "obsolete", "deprecated", "deprecated", "current"])
            p = n["p"]
            while p != 1:
                if s[p]["k"] == "choice" and s[p]["mand"]:
                    mand.append(p)
                p = s[p]["p"]
            # what remains of a mandatory choice is kept simple, and whether a deprecated
            # one is mandatory is left open
            if n["k"] == "choice" and n["mand"] and x == "deprecated" or \
                    mand and x == "obsolete" and n["p"] != mand[0] and not a["sh"]:
                continue
            n["st"] = x

    def taint(self, i):
        pass

    def refs(self, e, acc=None):
        """schema names mentioned by an expression"""
        acc = set() if acc is None else acc
        if e[0] == "path":
            for st in e[2]:
                if st[1] == "name":
                    acc.add((st[2], st[3]))
        for x in e[1:]:
            if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in (
                    "bin", "fn", "path", "neg", "union", "filt"):
                self.refs(x, acc)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, list) and y and isinstance(y[0], str):
                        self.refs(y, acc)
        return acc

    def ok_when(self, i, e):
        """No existing condition refers to names inside i, and e does not refer
        to conditional names (by name, which is conservative)."""
        s = self.s
        mine = {(s[x]["nm"], s[x]["md"]) for x in range(2, len(s.nodes)) if self.inside(i, x)}
        cond = set()
        for x in range(2, len(s.nodes)):
            if s[x]["wh"] or s[x]["whp"]:
                cond |= {(s[y]["nm"], s[y]["md"]) for y in range(2, len(s.nodes)) if self.inside(x, y)}
                for w in s[x]["wh"] + s[x]["whp"]:
                    if self.refs(w) & mine:
                        return False
        return not (self.refs(e) & cond) and not (self.refs(e) & mine)


def gen_schema(rng, **kw):
    return Gen(rng, Opts(**kw)).schema()


# -- instances ------------------------------------------------------------------
# In generators a tree is ["o", dict] / ["a", list] / scalar.
class InstGen:
    def __init__(self, rng, sch, p_opt=0.6, max_entries=3, ctype="all"):
        self.rng, self.s, self.p = rng, sch, p_opt
        self.maxe = max_entries
        self.ctype = ctype
        self.refs = []
        self.near = {}

    def tree(self):
        t = self.obj(1)
        self.fix_refs(t)
        return t

    def obj(self, i):
        res = {}
        self.fill(i, res)
        names = list(res)
        self.rng.shuffle(names)
        return ["o", {k: res[k] for k in names}]

    def want(self, i):
        n = self.s[i]
        if self.ctype == "config" and not n["cfg"] or n["st"] == "obsolete" and self.rng.random() < .9:
            return False
        if self.required(i):
            return self.rng.random() < 0.97
        return self.rng.random() < self.p

    def required(self, i):
        n = self.s[i]
        if n["k"] in ("leaf", "anydata", "choice"):
            return n["mand"] or (n["k"] == "leaf" and i in self.s[n["p"]]["ky"])
        if n["k"] in ("list", "leaf-list"):
            return n["mn"] > 0
        if n["k"] == "container" and not n["pres"]:
            return any(self.required(c) for c in n["c"])
        return False

    def fill(self, i, res):
        s, rng = self.s, self.rng
        for c in s[i]["c"]:
            n = s[c]
            if n["k"] == "choice":
                if n["c"] and (not (self.ctype == "config" and not n["cfg"])) and \
                        (n["mand"] and rng.random() < 0.97 or rng.random() < self.p):
                    self.fill(rng.choice(n["c"]), res)
            elif self.want(c):
                v = self.value(c)
                if v is not None:
                    res[s.iname(c)] = v

    def value(self, c):
        s, rng = self.s, self.rng
        n = s[c]
        k = n["k"]
        if k == "container":
            return self.obj(c)
        if k == "list":
            lo = n["mn"]
            hi = n["mx"] if n["mx"] >= 0 else max(lo, self.maxe)
            es, seen = [], set()
            for _ in range(rng.randint(min(lo, hi), min(hi, self.maxe + lo))):
                e = self.entry(c, seen)
                if e is not None:
                    es.append(e)
            return ["a", es] if es or rng.random() < 0.3 else None
        if k == "leaf-list":
            lo = n["mn"]
            hi = n["mx"] if n["mx"] >= 0 else max(lo, self.maxe)
            es = []
            for _ in range(rng.randint(min(lo, hi), min(hi, self.maxe + lo))):
                v = self.scalar(c)
                if v is not None and (v not in es or not n["cfg"]):
                    es.append(v)
            return ["a", es] if es or rng.random() < 0.3 else None
        if k == "anydata":
            return ["o", {"x": ["s", rng.choice(["1", "q"])]}]
        return self.scalar(c)

    def entry(self, c, seen):
        s = self.s
        for _ in range(4):
            e = self.obj(c)
            ks = self.near.get(c)
            if ks and seen and self.rng.random() < 0.5:
                for k, v in self.rng.sample(ks, self.rng.randint(1, len(ks) - 1)):
                    if v is not None and k in e[1]:
                        e[1][k] = v
            key = json.dumps([e[1].get(s.iname(x)) for x in s[c]["ky"]], default=str)
            if not s[c]["ky"] or key not in seen:
                seen.add(key)
                if len(s[c]["ky"]) > 1:     # later entries have some keys of this one
                    self.near[c] = [(s.iname(x), e[1].get(s.iname(x))) for x in s[c]["ky"]]
                return e
        return None

    def scalar(self, c):
        ty = self.s[c]["ty"]
        for _ in range(8):
            v = gen_value(self.rng, ty)
            if v is not None and unambiguous(ty, v):
                return v
        return None

    def fix_refs(self, t):
        """Make leafref values point to existing instances most of the time."""
        vals = {}
        s, rng = self.s, self.rng

        def collect(i, v):
            n = s[i]
            if v[0] == "o" and n["k"] != "anydata":
                for k, x in v[1].items():
                    c = s.kid(i, k)
                    if c:
                        collect(c, x)
            elif v[0] == "a":
                for x in v[1]:
                    collect(i, x)
            elif n["k"] == "leaf":
                vals.setdefault(i, []).append(v)

        def patch(i, v):
            if v[0] == "o" and s[i]["k"] != "anydata":
                for k in v[1]:
                    c = s.kid(i, k)
                    if c:
                        v[1][k] = patch(c, v[1][k])
                return v
            if v[0] == "a":
                new = []
                for x in v[1]:
                    y = patch(i, x)
                    if y not in new or s[i]["k"] != "leaf-list":
                        new.append(y)
                return ["a", new]
            ty = s[i]["ty"]
            if ty and ty["b"] == "leafref" and vals.get(ty["tgt"]) and rng.random() < 0.85:
                return rng.choice(vals[ty["tgt"]])
            return v
        collect(1, t)
        patch(1, t)


def emit(v):
    """Generator tree -> trace form."""
    if v[0] == "o":
        return ["o", [[k, emit(x)] for k, x in sorted(v[1].items())]]
    if v[0] == "a":
        return ["a", [emit(x) for x in v[1]]]
    return v


def raw_tree(sch, i, v):
    """JSON document (Python objects) for a tree at schema node i."""
    if v[0] == "o":
        if sch[i]["k"] == "anydata":
            return {k: raw_tree(sch, i, x) for k, x in v[1].items()}
        r = {}
        for k, x in v[1].items():
            c = sch.kid(i, k)
            r[k] = raw_tree(sch, c, x) if c else any_raw(x)
        return r
    if v[0] == "a":
        return [raw_tree(sch, i, x) for x in v[1]]
    return raw_scalar(v, sch[i]["ty"] if i else None)


def any_raw(v):
    if v[0] == "o":
        return {k: any_raw(x) for k, x in v[1].items()}
    if v[0] == "a":
        return [any_raw(x) for x in v[1]]
    return raw_scalar(v)


def untrace(v):
    """Trace form -> generator tree."""
    if v[0] == "o":
        return ["o", {k: untrace(x) for k, x in v[1]}]
    if v[0] == "a":
        return ["a", [untrace(x) for x in v[1]]]
    return v
