"""Driver of C13: YANG libraries and module files, loaded in processes with different hash seeds."""
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

CASE_CPU = 400
REVS = ["2023-01-31", "2023-11-30", "2024-06-01"]
NAMES = ["a", "b", "c", "d", "mod-e", "f.g"]


def rng_sample(rng):
    return rng.sample(["b1", "z-b", "c", "_d", "b.2"], 3)


class Lib:
    def __init__(self, rng):
        self.rng = rng
        self.count = 0
        r = rng.random
        names = rng.sample(NAMES, rng.randint(1, 5))
        self.lib = []
        subnames = ["s", "t-t", "u", "v"]
        rng.shuffle(subnames)
        for n in names:
            revs = rng.sample(REVS, rng.choice([1, 1, 1, 2, 3]))
            if r() < .15:
                revs[0] = ""
            impl = rng.randrange(-1 if r() < .3 else 0, len(revs))
            for i, x in enumerate(revs):
                subs = []
                while subnames and r() < .25:
                    subs.append([subnames.pop(), rng.choice([*REVS, ""])])
                self.lib.append({"n": n, "r": x, "ns": f"urn:{n}" if r() < .8 else f"http://example.net/{n}/{x}",
                                 "impl": i == impl or r() < .03, "subs": subs,
                                 "ft": [f for f in ("f1", "f2", "x-y") if r() < .2]})
        many = [n for n in names if sum(e["n"] == n for e in self.lib) > 1]
        if many and r() < .12:      # two implemented revisions of one module
            two = rng.sample([e for e in self.lib if e["n"] == rng.choice(many[:1])], 2)
            if r() < .5:
                two[0]["r"] = ""
                two[1]["r"] = two[1]["r"] or REVS[0]
            for e in two:
                e["impl"] = True
        rng.shuffle(self.lib)
        ids = {(e["n"], e["r"]) for e in self.lib} | {tuple(s) for e in self.lib for s in e["subs"]}
        all_ids = [(e["n"], e["r"]) for e in self.lib] + [tuple(s) for e in self.lib for s in e["subs"]]
        self.ok = len(ids) == len(all_ids)
        self.ids = sorted(ids)
        self.names = names
        # imports of every text, mostly acyclic
        self.cyc = r() < .12
        self.ndirs = rng.choice([1, 1, 2, 3])
        self.disk = [[] for _ in range(self.ndirs)]
        for e in self.lib:
            self.place((e["n"], e["r"]), "module", e["n"], [s[0] for s in e["subs"]])
            for s in e["subs"]:
                self.place(tuple(s), "submodule", e["n"], [])

    def imports(self, main):
        rng = self.rng
        res = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            x = rng.random()
            if x < .025:
                n, rev = rng.choice(NAMES + ["s", "u"]), ""
            else:
                i = self.names.index(main)
                cand = self.names if self.cyc or x < .03 else self.names[i + 1:]
                if not cand:
                    continue
                n = rng.choice(cand)
                revs = [e["r"] for e in self.lib if e["n"] == n and e["r"]]
                rev = rng.choice(revs) if revs and rng.random() < .4 else ""
                if rng.random() < .02:
                    rev = rng.choice(REVS)
            res.append([n, f"q{len(res)}" if rng.random() < .8 else f"{n}-{len(res)}", rev])
        return res

    def file(self, fn, kind, n, r, bt, includes):
        rng = self.rng
        self.count += 1
        f = {"fn": fn, "kind": kind, "n": n, "r": r, "px": rng.choice(["p", n, "own"]), "bt": bt, "tag": f"x{self.count}",
             "imps": self.imports(bt)}
        if any(i[1] == f["px"] for i in f["imps"]):
            f["px"] = "self"
        f["text"] = "container a { leaf b; }\n" if kind == "garbage" else self.text(f, includes)
        return f

    def text(self, f, includes):
        t = [f"{f['kind']} {f['n']} {{", "  yang-version 1.1;"]
        t += [f"  namespace \"urn:{f['n']}\";", f"  prefix {f['px']};"] if f["kind"] == "module" else \
            [f"  belongs-to {f['bt']} {{ prefix {f['px']}; }}"]
        for n, p, r in f["imps"]:
            t.append(f"  import {n} {{ prefix {p};" + (f" revision-date {r};" if r else "") + " }")
        t += [f"  include {s};" for s in includes]
        t.append(f"  contact \"{f['tag']}\";")
        if f["r"]:
            t.append(f"  revision {f['r']};")
            if self.rng.random() < .3:
                t.append("  revision 2001-01-01;")
        own = "t" if self.rng.random() < .5 else f"{f['px']}:t"
        if f["kind"] == "module":
            t += [f"  typedef t {{ type enumeration {{ enum {f['tag']}; }} }}", f"  grouping g {{ leaf g-{f['tag']} {{ type string; }} }}"]
            t.append("  identity b;")
            t += [f"  identity {x} {{ base b; }}" for x in rng_sample(self.rng)]
        t.append(f"  container top-{f['tag']} {{ leaf own {{ type {own}; }}")
        if f["kind"] == "module":
            t.append("    leaf idr { type identityref { base b; } }")
        for i, (n, p, r) in enumerate(f["imps"]):
            t.append(f"    leaf i{i} {{ type {p}:t; }} container c{i} {{ uses {p}:g; }}")
        t.append("  }")
        for i, (n, p, r) in enumerate(f["imps"]):
            t.append(f"@@{i}")      # augment of the imported module's container
        t.append("}")
        return "\n".join(t) + "\n"

    def place(self, mid, kind, bt, includes):
        rng = self.rng
        n, r = mid
        full, plain = f"{n}@{r}.yang", f"{n}.yang"
        if rng.random() < .02:
            return
        d = rng.randrange(self.ndirs)
        fn = full if r and rng.random() < .7 else plain
        x = rng.random()
        if x < .02:
            kind = "garbage"
        elif x < .035:
            kind = "submodule" if kind == "module" else "module"
        elif x < .05:
            bt = rng.choice(self.names)
        self.disk[d].append(self.file(fn, kind, n, r, bt, includes))
        # other files with the same names elsewhere, right or wrong
        while rng.random() < .3:
            fn = rng.choice([full, plain]) if r else plain
            d = rng.randrange(self.ndirs)
            x = rng.random()
            n2, r2 = n, r
            if x < .4:
                r2 = rng.choice([*REVS, ""])
            elif x < .5:
                n2 = rng.choice(NAMES)
            self.disk[d].append(self.file(fn, kind if rng.random() < .97 else "garbage", n2, r2, bt, includes))
        for d in self.disk:     # one file of each name
            seen = {}
            for f in d:
                seen.setdefault(f["fn"], f)
            d[:] = seen.values()

    def resolve(self):
        """Fill in the augments (which need the tags of imported texts) and the paths."""
        def found(mid):
            n, r = mid
            for d in self.disk:
                for fn in ([f"{n}@{r}.yang"] if r else []) + [f"{n}.yang"]:
                    for f in d:
                        if f["fn"] == fn and f["n"] == n and f["r"] == r:
                            return f
        for k, d in enumerate(self.disk):
            for f in d:
                f["path"] = f"{k}/{f['fn']}"
                own = f"{f['px']}:t"
                for i, (n, p, r) in enumerate(f["imps"]):
                    c = sorted(e["r"] for e in self.lib if e["n"] == n and r in ("", e["r"]))
                    y = next((e for e in self.lib if c and e["n"] == n and e["r"] == c[-1]), None)
                    g = y and found((y["n"], y["r"]))
                    a = ""
                    if g and y["impl"] and n != f["bt"]:
                        a = f"  augment /{p}:top-{g['tag']} {{ leaf by-{f['tag']}{i} {{ type {own}; }} }}"
                    f["text"] = f["text"].replace(f"@@{i}\n", a + "\n")

    def queries(self):
        rng = self.rng
        ids = self.ids + [("a", "1999-01-01"), ("zz", "")]
        names = NAMES + ["s", "u", "zz"]
        pxs = ["p", "own", "q0", "q1", "self", *self.names, ""]
        res = []
        for _ in range(25):
            how = rng.choice(["namespace", "last", "prefix2ns", "resolve", "translate", "prefix"])
            q = {"how": how, "id": rng.choice(ids), "n": rng.choice(names), "p": rng.choice(pxs)}
            if how == "prefix2ns" and not q["p"]:
                q["p"] = "p"
            res.append(q)
        return res

    def json(self, order):
        ms = []
        for i in order:
            e = self.lib[i]
            m = {"name": e["n"], "revision": e["r"], "namespace": e["ns"], "conformance-type": "implement" if e["impl"] else "import"}
            if e["ft"]:
                m["feature"] = e["ft"]
            if e["subs"]:
                m["submodule"] = [{"name": s, "revision": x} for s, x in e["subs"]]
            ms.append(m)
        return {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": ms}}


def spoil(rng, lib):
    """Make library data invalid; returns what was done and the text."""
    st = lib["ietf-yang-library:modules-state"]
    m = rng.choice(st["module"])
    how = rng.choice(["no-name", "no-revision", "no-conformance", "no-state", "no-modules", "no-id", "text", "trunc",
                      "number-name", "number-rev", "modules-object", "module-text", "top-list", "state-list", "feature-text",
                      "sub-object", "sub-text", "sub-no-name", "sub-no-revision", "conformance", "null-rev", "feature-number", "id-number",
                      "top-number", "state-number"])
    txt = None
    if how == "no-name":
        del m["name"]
    elif how == "no-revision":
        del m["revision"]
    elif how == "no-conformance":
        del m["conformance-type"]
    elif how == "no-state":
        lib = {"ietf-yang-library:modules": st}
    elif how == "no-modules":
        st["modules"] = st.pop("module")
    elif how == "no-id":
        del st["module-set-id"]
    elif how == "text":
        txt = rng.choice(["", "hello", "<a/>"])
    elif how == "trunc":
        txt = json.dumps(lib)
        txt = txt[:rng.randrange(1, len(txt) - 1)]
    elif how == "number-name":
        m["name"] = 1
    elif how == "number-rev":
        m["revision"] = 20240101
    elif how == "null-rev":
        m["revision"] = None
    elif how == "modules-object":
        st["module"] = m
    elif how == "module-text":
        st["module"][st["module"].index(m)] = rng.choice(["a", 1, None, []])
    elif how == "top-list":
        lib = [lib]
    elif how == "top-number":
        lib = rng.choice([1, None, "x", True])
    elif how == "state-list":
        lib["ietf-yang-library:modules-state"] = [st]
    elif how == "state-number":
        lib["ietf-yang-library:modules-state"] = rng.choice([1, None, "x", True])
    elif how == "feature-text":
        m["feature"] = "ab"
    elif how == "feature-number":
        m["feature"] = [1]
    elif how == "sub-object":
        m["submodule"] = {"name": "s", "revision": ""}
    elif how == "sub-text":
        m["submodule"] = ["s"]
    elif how == "sub-no-name":
        m["submodule"] = [{"revision": ""}]
    elif how == "sub-no-revision":
        m["submodule"] = [{"name": "s"}]
    elif how == "conformance":
        m["conformance-type"] = rng.choice(["implemented", 1, None, "", ["implement"]])
    elif how == "id-number":
        st["module-set-id"] = rng.choice([5, ["x"]])
    return how, json.dumps(lib) if txt is None else txt


def child(inp):
    """Load libraries and report (in a process of its own)."""
    from yangson import DataModel
    from addrdrive import real, route
    from yangson.datatype import EnumerationType

    def call(f, *a):
        try:
            return ["ok", f(*a)]
        except Exception as e:
            return ["err", type(e).__name__]

    for c in json.load(open(inp)):
        base = c["dir"]
        r = {"order": c["order"], "mods": [], "impl": [], "nodes": [], "byname": [], "byns": [], "qs": [], "seq": [], "text": "", "msid": ""}
        try:
            dm = DataModel(c["lib"], tuple(f"{base}/{k}" for k in range(c["ndirs"])))
        except Exception as e:
            r["out"] = ["err", type(e).__name__]
            print(json.dumps(r))
            continue
        sd = dm.schema_data
        r["out"] = ["ok"]
        for mid, m in sd.modules.items():
            r["mods"].append({"id": mid, "main": m.main_module, "ft": sorted(m.features), "ns": m.xml_namespace or "",
                              "px": list(m.prefix_map.items()), "subs": sorted(m.submodules),
                              "tag": m.statement.find1("contact").argument, "path": m.path[len(base) + 1:]})
            for p, i in m.prefix_map.items():
                assert isinstance(i, tuple)
        r["impl"] = list(sd.implement.items())
        r["byname"] = [[k, v.yang_id] for k, v in sd.modules_by_name.items()]
        r["byns"] = [[k, v.main_module] for k, v in sd.modules_by_ns.items() if k]
        for n in real(dm.schema):
            t = getattr(n, "type", None)
            r["nodes"].append([route(n), list(t.enum) if isinstance(t, EnumerationType) else []])
        # (the order of siblings is left open)
        r["text"] = "\n".join(sorted(dm.ascii_tree().split("\n"))) + json.dumps(json.loads(dm.schema_digest()), sort_keys=True)
        r["seq"] = list(getattr(sd, "_module_sequence", []))
        r["msid"] = dm.module_set_id()
        for q in c["qs"]:
            pn = f"{q['p']}:{q['n']}" if q["p"] else q["n"]
            mid = tuple(q["id"])
            q = dict(q)
            q["res"] = {"namespace": lambda: call(sd.namespace, mid), "last": lambda: call(sd.last_revision, q["n"]),
                        "prefix2ns": lambda: call(sd.prefix2ns, q["p"], mid),
                        "resolve": lambda: flat(call(sd.resolve_pname, pn, mid)),
                        "translate": lambda: call(sd.translate_pname, pn, mid),
                        "prefix": lambda: call(sd.prefix, q["n"], mid)}[q["how"]]()
            r["qs"].append(q)
        print(json.dumps(r))


def flat(x):
    return ["ok", *x[1]] if x[0] == "ok" else x


def loads(rng, payload):
    top = tempfile.mkdtemp(prefix="yg-lib-")
    try:
        evs, cases = [], []
        while len(evs) < payload["n"]:
            w = Lib(rng)
            if not w.ok:
                continue
            w.resolve()
            base = f"{top}/{len(evs)}"
            for k, d in enumerate(w.disk):
                os.makedirs(f"{base}/{k}")
                for f in d:
                    with open(f"{base}/{k}/{f['fn']}", "w", encoding="utf-8") as out:
                        out.write(f["text"])
            o0 = list(range(1, len(w.lib) + 1))
            o1 = rng.sample(o0, len(o0))
            bad = ""
            texts = [json.dumps(w.json([i - 1 for i in o])) for o in (o0, o1)]
            if rng.random() < .25:
                bad, t = spoil(rng, copy.deepcopy(w.json([i - 1 for i in o0])))
                texts = [t, t]
                o1 = o0
            evs.append({"op": "load", "lib": w.lib, "disk": w.disk, "bad": bad, "runs": [], "libtext": texts[0]})
            qs = w.queries()
            cases.append([{"dir": base, "ndirs": w.ndirs, "lib": t, "order": o, "qs": qs if k == 0 else qs[:3]}
                          for k, (t, o) in enumerate(zip(texts, (o0, o1)))])
        for seed, ks in (("0", (0,)), (str(rng.randrange(1, 10000)), (0, 1)), (str(rng.randrange(1, 10000)), (1,))):
            inp = f"{top}/cases.json"
            with open(inp, "w") as f:
                json.dump([c[k] for c in cases for k in ks], f)
            p = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), inp], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env={**os.environ, "PYTHONHASHSEED": seed}, timeout=600)
            lines = p.stdout.decode().splitlines()
            if p.returncode != 0 or len(lines) != len(cases) * len(ks):
                raise RuntimeError(f"child failed: {p.stderr.decode()[-2000:]}")
            for i, line in enumerate(lines):
                evs[i // len(ks)]["runs"].append(json.loads(line))
        ids = [[sorted("@".join(m["id"]) for m in r["mods"]), r["msid"]] for e in evs for r in e["runs"][:1] if r["out"] == ["ok"]]
        for e in evs:
            for d in e["disk"]:
                for f in d:
                    f["text"] = ""      # (kept out of the traces; regenerated from the seed)
        return evs + [{"op": "ids", "ids": ids}]
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    child(sys.argv[1])
