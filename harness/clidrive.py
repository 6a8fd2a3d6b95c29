"""Driver of C21: runs of the command-line tools."""
import contextlib
import copy
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import traceback

import ygen
from core import REPO
from ddrive import Mut, Rec, has_bad, has_bad_conv
from libdrive import Lib, spoil
from ygen import emit, raw_tree

CASE_CPU = 400


class Out(io.StringIO):
    def close(self):
        pass


def run(module, args, env=None, real=False):
    """Run a tool; (exit status, stdout, stderr)."""
    if real:
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", f"yangson.{module}", *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env={**os.environ, **(env or {})}, timeout=300)
        return p.returncode, p.stdout.decode(), p.stderr.decode()
    import importlib
    m = importlib.import_module("yangson." + module)
    out, err = Out(), Out()
    old, oldenv = sys.argv, dict(os.environ)
    sys.argv = [module, *args]
    os.environ.update(env or {})
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                rc = m.main()
            except SystemExit as e:
                rc = e.code
            except Exception:
                rc = 1
                err.write(traceback.format_exc())
    finally:
        sys.argv = old
        os.environ.clear()
        os.environ.update(oldenv)
    return rc, out.getvalue(), err.getvalue()


def errs(text):
    return 0 if not text.strip() else 2 if "Traceback (most recent call last)" in text else 1


class Runs:
    def __init__(self, rng, top, evs, g):
        self.rng, self.top, self.evs, self.g = rng, top, evs, g
        self.n = 0

    def path(self, ext=""):
        self.n += 1
        return f"{self.top}/f{self.n}{ext}"

    def file(self, data, ext=""):
        p = self.path(ext)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return p

    def bad_file(self, kind):
        """A file that cannot be used."""
        rng = self.rng
        if kind == "missing":
            return self.path()
        if kind == "directory":
            p = self.path()
            os.mkdir(p)
            return p
        if kind == "not UTF-8":
            return self.file(b'{"a": "\xff\xfe"}')
        if kind == "not JSON":
            return self.file(rng.choice(["", "{", '{"a": 1,}', "hello", "<a/>", "[1, 2", "{}{}"]))
        if kind == "not a pickle":
            return self.file(rng.choice([b"", b"hello\n", b"{}", b"\x80\x05", b"cos\nnosuch\n.", b"\x80\x04\x95\x05", b"N", b"I1\n.", b"cfoo\nbar\n."]))

    def add(self, args, libargs=(), infile="ok", cmd="none", dumpable=True, inst="ok", sub="ok", doc="none", api="", scope="all", ct="all",
            env=None, real=False, what=""):
        rc, out, err = run("__main__", [*args, *libargs], env, real)
        self.evs.append({"op": "run", "g": self.g, "infile": infile, "cmd": cmd, "dumpable": dumpable, "inst": inst, "sub": sub, "doc": doc,
                         "scope": scope, "ct": ct, "status": rc if isinstance(rc, int) else 99, "out": out, "errs": errs(err), "api": api,
                         "args": [str(x).replace(self.top, "") for x in [*args, *libargs]], "err": err[-600:], "what": what})
        return rc


def unreadable(rng):
    return rng.choice(["missing", "directory", "not UTF-8"])


def rendering(dm, cmd, no_types=False):
    return {"id": dm.module_set_id, "digest": dm.schema_digest, "tree": lambda: dm.ascii_tree(no_types)}[cmd]() + "\n"


def library_runs(rng, evs, n, top):
    """Libraries of all kinds with all commands."""
    from yangson import DataModel
    for _ in range(n):
        w = Lib(rng)
        if not w.ok:
            continue
        w.resolve()
        g = str(rng.random())
        base = tempfile.mkdtemp(dir=top)
        r = Runs(rng, base, evs, g)
        for k, d in enumerate(w.disk):
            os.makedirs(f"{base}/{k}")
            for f in d:
                with open(f"{base}/{k}/{f['fn']}", "w", encoding="utf-8") as out:
                    out.write(f.pop("text"))
        lib = w.json(range(len(w.lib)))
        bad, text = spoil(rng, copy.deepcopy(lib)) if rng.random() < .15 else ("", json.dumps(lib))
        evs.append({"op": "lib", "g": g, "lib": w.lib, "disk": w.disk, "bad": bad})
        lf = r.file(text, ".json")
        mp = ":".join(f"{base}/{k}" for k in range(w.ndirs))
        try:
            dm = DataModel(text, tuple(mp.split(":")))
        except Exception:
            dm = None
        for cmd in ("none", "id", "tree", "digest", "dump"):
            args, kw = [], {}
            if rng.random() < .5:
                args += rng.choice([["-p", mp], ["--path", mp], [f"--path={mp}"]])
                if rng.random() < .3:
                    kw["env"] = {"YANG_MODPATH": "/nonexistent"}
            else:
                kw["env"] = {"YANG_MODPATH": mp}
            f, infile = lf, "ok"
            if rng.random() < .06:
                infile = unreadable(rng)
                f = r.bad_file(infile)
            nt = rng.random() < .4
            if nt:
                args += ["-n"] if rng.random() < .5 else ["--no-types"]
            if cmd == "dump":
                kw["dumpable"] = rng.random() < .8
                pf = r.path(".pickle") if kw["dumpable"] else rng.choice([base, base + "/nonexistent/x"])
                args += [rng.choice(["-D", "--dump"]), pf]
            elif cmd != "none":
                args.append(rng.choice(["-" + cmd[0], "--" + cmd]))
                kw["api"] = rendering(dm, cmd, nt) if dm else ""
            rc = r.add(args, [f], infile=infile, cmd=cmd, real=rng.random() < .02, **kw)
            if cmd == "dump" and rc == 0 and os.path.exists(pf):
                # the dumped data model instead of the library
                for c2 in ("none", "id", "tree", "digest"):
                    f2, infile = pf, "ok"
                    if rng.random() < .1:
                        infile = rng.choice(["missing", "directory", "not a pickle"])
                        f2 = r.bad_file(infile)
                    a2 = [] if c2 == "none" else ["-" + c2[0]]
                    # (loading may not even be possible without the modules)
                    r.add([*a2, *(["-n"] if nt else []), rng.choice(["-P", "--pickled"])], [f2], infile=infile, cmd=c2,
                          api=rendering(dm, c2, nt) if dm and c2 != "none" else "", env={"YANG_MODPATH": "/nonexistent"}, what="pickled")
        shutil.rmtree(base)


SUB = """module s { yang-version 1.1; namespace "urn:s"; prefix s; revision 2024-01-01;
  rpc r { input { leaf x { type int8 { range "1..10"; } mandatory true; } leaf w { type string; must "../x > 3"; } } output { leaf y { type boolean; } } }
  notification n { leaf z { type enumeration { enum a; enum b; } } }
  container c { leaf v { type uint8; } leaf-list k { type string; } action go { input { leaf p { type string; } } }
    leaf o { type leafref { path "../v"; } } } }
"""


def sub_docs(rng):
    """Subschema, why it doesn't exist, a document, and whether it is valid."""
    k = rng.randrange(5)
    if k == 0:
        x = rng.choice([None, -1, 0, 1, 3, 4, 10, 11, 300, "5"])
        d = {} if x is None else {"x": x}
        ok = isinstance(x, int) and 1 <= x <= 10
        if rng.random() < .4:
            d["w"] = "a"
            ok = ok and x > 3
        if rng.random() < .1:
            d["y"] = True
            ok = False
        return "s:r", "ok", {"s:input": d}, ok
    if k == 1:
        y = rng.choice([True, False, "true", 1])
        return "s:r", "ok", {"s:output": {"y": y}}, isinstance(y, bool)
    if k == 2:
        z = rng.choice(["a", "b", "c", 1, ""])
        m = rng.choice(["s:z", "s:z", "t:z"])
        return "s:n", "ok", {m: z}, m == "s:z" and z in ("a", "b")
    if k == 3:
        return rng.choice([("r", "no prefix"), ("n", "no prefix"), ("s:q", "unknown"), ("t:r", "unknown"), ("s:c", "not an operation"),
                           (":r", "no prefix"), ("s:", "no prefix"), ("s:r:x", "unknown")]) + ({"s:input": {"x": 5}}, False)
    docs = [({"s:c": {"v": 5}}, True), ({"s:c": {"v": 5, "o": 5}}, True), ({"s:c": {"v": 5, "o": 6}}, False), ({"s:c": {"v": 256}}, False),
            ({"s:c": {"v": "5"}}, False), ({"s:c": {"zz": 1}}, False), ({"c": {"v": 1}}, False), ({}, True), ([], False), (5, False), ("x", False),
            (None, False), ({"s:c": []}, False), ({"s:c": {"k": ["a", "b"]}}, True), ({"s:c": {"k": ["a", "a"]}}, False), ({"s:c": {"k": "a"}}, False),
            ({"s:c": {"v": 5, "@v": {"zz:q": 1}}}, False), ({"s:c": {"@v": {"zz:q": 1}}}, False), ({"s:c": {"@k": [{"s:q": 1}], "k": ["a"]}}, False),
            ({"s:c": {"v": None}}, False), ({"s:c": {"v": 5, "@v": 7}}, False), ({"s:r": {}}, False)]
    return (None, "ok") + rng.choice(docs)


def instance_runs(rng, evs, n, top):
    """Broken instance files, subschemas."""
    g = str(rng.random())
    base = tempfile.mkdtemp(dir=top)
    r = Runs(rng, base, evs, g)
    with open(f"{base}/s@2024-01-01.yang", "w") as f:
        f.write(SUB)
    lf = r.file(json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [
        {"name": "s", "revision": "2024-01-01", "namespace": "urn:s", "conformance-type": "implement"}]}}))
    pf = r.path()
    evs.append({"op": "lib", "g": g, "lib": [], "disk": [[]], "bad": ""})
    r.add(["-p", base, "-D", pf], [lf], cmd="dump")
    for _ in range(n):
        args = ["-p", base]
        f = lf
        if rng.random() < .3 and os.path.exists(pf):
            args, f = ["-P"], pf
        sub, why, doc, ok = sub_docs(rng)
        kw = {"inst": "ok"}
        if rng.random() < .12:
            kw["inst"] = rng.choice(["missing", "directory", "not UTF-8", "not JSON"])
            inst = r.bad_file(kw["inst"])
        else:
            inst = r.file(json.dumps(doc))
        if sub:
            args += rng.choice([["-S", sub], ["--subschema", sub]])
        args += rng.choice([["-v", inst], ["--validate", inst]])
        r.add(args, [f], cmd="validate", sub=why, doc="valid" if ok else "invalid", real=rng.random() < .01, **kw)
    shutil.rmtree(base)


def valid_runs(rng, evs, payload, top):
    """Instances of random schemas."""
    for _ in range(payload["schemas"]):
        g = str(rng.random())
        r0 = Rec(rng, dict(leafref=.12, instid=0, must=rng.choice([0, .15]), unique=.6, card=.5, when=rng.choice([0, .1]), mand=.15, default=.3,
                           choice=.15, state=.2, max_depth=4, nodes=16), g)
        base = tempfile.mkdtemp(dir=top)
        r = Runs(rng, base, evs, g)
        for m, t in r0.s.yang().items():
            with open(f"{base}/{m}@2024-01-01.yang", "w") as f:
                f.write(t)
        lf = r.file(r0.s.library())
        pf = r.path()
        evs += r0.ev
        r.add(["-p", base, "-D", pf], [lf], cmd="dump")
        anycond = any(n["wh"] or n["whp"] or n["mu"] for n in r0.s.nodes[1:])
        mut = Mut(rng, r0, wild=False)
        for _ in range(payload["trees"]):
            gen = ygen.InstGen(rng, r0.s, p_opt=rng.choice([.3, .5, .8]), max_entries=3, ctype=rng.choice(["all", "all", "config"]))
            bt = gen.tree()
            for t in [bt] + [mut.apply(bt) for _ in range(payload["muts"])]:
                bad = has_bad(r0.s, t)
                if bad and anycond and has_bad_conv(r0.s, t):
                    continue
                if bad and has_nonraw(r0.s, t):
                    continue
                evs.append({"op": "tree", "g": g, "tree": emit(t)})
                inst = r.file(json.dumps(raw_tree(r0.s, 1, t)))
                for _ in range(2):
                    sc = "syntax" if bad else rng.choice(["syntax", "semantics", "all"])
                    ct = rng.choice(["config", "all", "all", "nonconfig"])
                    args = ["-v", inst]
                    if sc != "all" or rng.random() < .3:
                        args += rng.choice([["-s", sc], ["--scope", sc]])
                    if ct != "all" or rng.random() < .3:
                        args += rng.choice([["-c", ct], ["--ctype", ct]])
                    lib = ["-p", base, lf] if rng.random() < .8 else ["-P", pf]
                    r.add(args, lib, cmd="validate", doc="tree", scope=sc, ct=ct)
        shutil.rmtree(base)


def has_nonraw(sch, t):
    """Are there values whose JSON form belongs to the type although they don't?"""
    return False


def runs(rng, payload):
    top = tempfile.mkdtemp(prefix="yg-cli-")
    evs = []
    try:
        library_runs(rng, evs, payload["libs"], top)
        instance_runs(rng, evs, payload["insts"], top)
        valid_runs(rng, evs, payload, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return evs


# -- conversion -----------------------------------------------------------------
IETF = REPO + "/yang-modules/ietf"
REVS = ["2023-01-31", "2023-11-30", "2024-06-01"]


class Y8525:
    def __init__(self, rng):
        self.rng = rng
        pool = rng.sample(["a", "b", "c", "mod-d", "e.f", "g_h"], rng.randint(2, 6))
        # implemented modules agree in all module sets
        self.known = {}
        self.ms = [self.mset(f"set{i}" if rng.random() < .8 else f"s {i}", pool) for i in range(rng.randint(1, 3))]
        self.sc = [{"n": f"schema-{i}", "ms": [m["n"] for m in rng.sample(self.ms, rng.randint(0 if rng.random() < .1 else 1, len(self.ms)))]}
                   for i in range(rng.randint(1, 3))]
        self.ds = [{"n": n, "sc": rng.choice(self.sc)["n"]} for n in rng.sample(["running", "startup", "candidate", "operational", "intended"],
                                                                              rng.randint(0 if rng.random() < .1 else 1, 4))]
        if self.ds and rng.random() < .6 and not any(d["n"] == "running" for d in self.ds):
            self.ds[0]["n"] = "running"
        self.id = rng.choice(["abc", "1", "x y", "\u00e9", ""])

    def module(self, n, r, imp):
        rng = self.rng
        m = {"n": n, "r": r, "ns": f"urn:{n}" if rng.random() < .8 else f"http://example.net/{n}?x=1", "ft": [], "dv": [],
             "loc": [f"http://x/{n}/{k}" for k in range(rng.choice([0, 0, 1, 2]))],
             "subs": [{"n": f"{n}-s{k}", "r": rng.choice(REVS + [""]), "loc": [f"file:{k}{j}" for j in range(rng.choice([0, 0, 1, 2]))]}
                      for k in range(rng.choice([0, 0, 1, 2]))]}
        if not imp:
            m["ft"] = [f for f in ("f1", "f2", "f.3") if rng.random() < .3]
        return m

    def mset(self, name, pool):
        rng = self.rng
        s = {"n": name, "mods": [], "imps": []}
        for n in rng.sample(pool, rng.randint(0, len(pool))):
            if n not in self.known:
                r = rng.choice([*REVS, ""])
                # (the same revision is described in the same way everywhere)
                self.known[n] = copy.deepcopy(self.imported.get((n, r))) or self.module(n, r, False)
            s["mods"].append(copy.deepcopy(self.known[n]))
        names = [m["n"] for m in s["mods"]]
        for m in s["mods"]:
            others = [x for x in names if x != m["n"]]
            if others and rng.random() < .35:
                m["dv"] = rng.sample(others, rng.randint(1, min(2, len(others))))
        # (deviations of a module are the same in all sets: only those of one set)
        for m in s["mods"]:
            k = self.known[m["n"]]
            if "fixed" in k:
                m["dv"] = k["dv"] if set(k["dv"]) <= set(names) else []
                if m["dv"] != k["dv"]:
                    s["mods"] = [x for x in s["mods"] if x is not m]
            else:
                k["dv"], k["fixed"] = m["dv"], True
        for m in s["mods"]:
            m.pop("fixed", None)
        have = {m["n"] for m in s["mods"]}
        s["mods"] = [m for m in s["mods"] if set(m["dv"]) <= have]
        have2 = {m["n"] for m in s["mods"]}
        while have2 != have:
            have = have2
            s["mods"] = [m for m in s["mods"] if set(m["dv"]) <= have]
            have2 = {m["n"] for m in s["mods"]}
        done = set()
        for _ in range(rng.choice([0, 1, 2, 3])):
            n, r = rng.choice(pool), rng.choice([*REVS, ""])
            if (n, r) not in done:
                done.add((n, r))
                # the same revision is described in the same way everywhere
                k = self.known.get(n)
                m = self.imported.setdefault((n, r), self.module(n, r, True)) if not (k and k["r"] == r) else None
                if m is None:
                    m = dict(copy.deepcopy(k), ft=[], dv=[])
                    m.pop("fixed", None)
                s["imps"].append(copy.deepcopy(m))
        return s

    imported = None

    def json(self):
        def mod(m, imp):
            d = {"name": m["n"], "namespace": m["ns"] if self.rng.random() < .9 else m["ns"]}
            if m["r"] or imp:
                d["revision"] = m["r"]
            if m["loc"]:
                d["location"] = m["loc"]
            if m["subs"]:
                d["submodule"] = [{"name": s["n"], **({"revision": s["r"]} if s["r"] else {}), **({"location": s["loc"]} if s["loc"] else {})}
                                  for s in m["subs"]]
            if m["ft"]:
                d["feature"] = m["ft"]
            if m["dv"]:
                d["deviation"] = m["dv"]
            return d
        y = {"content-id": self.id}
        ms = []
        for s in self.ms:
            d = {"name": s["n"]}
            if s["mods"]:
                d["module"] = [mod(m, False) for m in s["mods"]]
            if s["imps"]:
                d["import-only-module"] = [mod(m, True) for m in s["imps"]]
            ms.append(d)
        y["module-set"] = ms
        y["schema"] = [{"name": s["n"], **({"module-set": s["ms"]} if s["ms"] else {})} for s in self.sc]
        if self.ds:
            y["datastore"] = [{"name": "ietf-datastores:" + d["n"], "schema": d["sc"]} for d in self.ds]
        return {"ietf-yang-library:yang-library": y}

    def record(self):
        for s in self.ms:
            for m in s["mods"] + s["imps"]:
                m.pop("fixed", None)
        return {"id": self.id, "ms": self.ms, "sc": self.sc, "ds": self.ds}


def spoil8525(rng, d):
    y = d["ietf-yang-library:yang-library"]
    mods = [m for s in y["module-set"] for k in ("module", "import-only-module") for m in s.get(k, [])]
    how = rng.choice(["no content-id", "no library", "no namespace", "bad name", "bad revision", "text", "list", "schema of numbers", "unknown member",
                      "empty", "no schema of a datastore", "unknown annotation", "bad datastore"  ])
    if how == "no content-id":
        del y["content-id"]
    elif how == "no library":
        d = {"ietf-yang-library:yang-libraries": y}
    elif how == "empty":
        d = rng.choice([{}, {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": []}}])
        if "ietf-yang-library:modules-state" in d:
            how = "old library"
    elif how == "no namespace" and mods:
        del rng.choice(mods)["namespace"]
    elif how == "bad name" and mods:
        rng.choice(mods)["name"] = rng.choice(["a b", "", 5, "1a"])
    elif how == "bad revision" and mods:
        rng.choice(mods)["revision"] = rng.choice(["2024-1-1", 20240101, "yesterday"])
    elif how == "text":
        d = rng.choice(["x", 5, None])
    elif how == "list":
        d = [d]
    elif how == "schema of numbers":
        y["schema"] = [1]
    elif how == "unknown member":
        rng.choice([y, *mods])["colour"] = "red"
    elif how == "no schema of a datastore" and "datastore" in y:
        del rng.choice(y["datastore"])["schema"]
    elif how == "unknown annotation":
        y["@content-id"] = {"zz:q": 1}
    elif how == "bad datastore" and "datastore" in y:
        rng.choice(y["datastore"])["name"] = rng.choice(["running", "ietf-datastores:walking", 3])
    else:
        return None
    return how, d


def conv(rng, payload):
    evs = []
    top = tempfile.mkdtemp(prefix="yg-conv-")
    try:
        r = Runs(rng, top, evs, "")
        for _ in range(payload["n"]):
            Y8525.imported = {}
            y = Y8525(rng)
            doc, inp = y.json(), "ok"
            x = rng.random()
            if x < .05:
                # dangling references and repeated entries
                what = rng.choice(["schema", "set", "deviation", "twice", "dsname"])
                if what == "schema" and y.ds:
                    y.ds[0]["sc"] = "none"
                elif what == "set":
                    y.sc[0]["ms"] = y.sc[0]["ms"] + ["none"]
                elif what == "deviation" and y.ms[0]["mods"]:
                    y.ms[0]["mods"][0]["dv"] = ["none"]
                elif what == "twice" and y.ms[0]["mods"]:
                    y.ms[0]["mods"].append(copy.deepcopy(y.ms[0]["mods"][0]))
                elif what == "dsname" and y.ds:
                    y.ds.append(copy.deepcopy(y.ds[0]))
                doc = y.json()
            elif x < .2:
                sp = spoil8525(rng, copy.deepcopy(doc))
                if sp:
                    inp, doc = sp
            f = r.file(json.dumps(doc, ensure_ascii=rng.random() < .5))
            if rng.random() < .06:
                inp = rng.choice(["missing", "directory", "not UTF-8", "not JSON"])
                f = r.bad_file(inp)
            how = rng.choice(["datastore", "datastore", "schema"])
            if how == "schema":
                name = rng.choice(y.sc)["n"] if rng.random() < .85 else "none"
                args = [rng.choice(["-s", "--schema"]), name]
            else:
                name = rng.choice([d["n"] for d in y.ds] or ["running"]) if rng.random() < .75 else rng.choice(["running", "none", "startup"])
                args = [rng.choice(["-d", "--datastore"]), name]
                if name == "running" and rng.random() < .6:
                    args = []
            env = None
            if rng.random() < .6:
                args += ["-p", rng.choice([IETF, "/nonexistent:" + IETF])]
            else:
                env = {"YANG_MODPATH": IETF}
            writable, of = True, None
            if rng.random() < .4:
                of = r.path()
                writable = rng.random() < .8
                if not writable:
                    of = rng.choice([top, top + "/nonexistent/x"])
                args += [rng.choice(["-o", "--output"]), of]
            rc, out, err = run("convert8525", [*args, f], env, rng.random() < .02)
            res = {"id": "", "mods": []}
            if rc == 0:
                if of:
                    with open(of, encoding="utf-8") as fo:
                        out = fo.read()
                res = result(out)
            if inp == "old library":
                continue        # (left open)
            evs.append({"op": "conv", "g": "", "Y": y.record(), "how": how, "name": name, "input": inp, "writable": writable,
                        "status": rc if isinstance(rc, int) else 99, "errs": errs(err), "err": err[-400:], "res": res})
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return evs


def result(text):
    st = json.loads(text)["ietf-yang-library:modules-state"]
    return {"id": st["module-set-id"], "mods": [
        {"n": m["name"], "r": m["revision"], "ns": m["namespace"], "impl": m["conformance-type"] == "implement", "ft": m.get("feature", []),
         "loc": m.get("schema", ""), "dv": [[x["name"], x["revision"]] for x in m.get("deviation", [])],
         "subs": [{"n": s["name"], "r": s["revision"], "loc": s.get("schema", "")} for s in m.get("submodule", [])]} for m in st.get("module", [])]}
