#!/usr/bin/env python3
"""tools/mutate.py N SEED [FILE...]: mutation test of the checks.
Makes N random one-place changes of /repo's sources (in scratch copies), drops those that
the stable tests find, and runs the checks of the file on the rest.  Prints survivors."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "instance.py": "C01 C02 C03 C22 C11 C05 C04 C06 C07 C10 C18 C08 C20",
    "instvalue.py": "C19 C01 C03 C02",
    "schemanode.py": "C15 C05 C20 C06 C08 C09 C07 C12 C17 C14 C03",
    "schemadata.py": "C13 C12 C15 C14 C20 C10",
    "datamodel.py": "C13 C20 C15 C08 C14",
    "datatype.py": "C17 C08 C09 C14 C20 C05",
    "constraint.py": "C17 C05 C10",
    "schpattern.py": "C05 C04 C18",
    "xpathast.py": "C10 C14 C05",
    "xpathparser.py": "C10",
    "nodeset.py": "C10",
    "statement.py": "C16 C15",
    "parser.py": "C16 C10 C11 C12",
    "instroute.py": "C11 C20",
    "enumerations.py": "C05",
    "exceptions.py": "C05",
    "__main__.py": "C21",
    "convert8525.py": "C21",
}


def muts(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln) + 1)

    def pos(l, c):
        return offs[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    swap = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
            ast.Is: "is not", ast.IsNot: "is"}
    ops = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "*", ast.Mod: "*"}
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            l, r = n.left, n.comparators[0]
            out.append((span(l)[1], span(r)[0], f" {swap[type(n.ops[0])]} ", "compare"))
        elif isinstance(n, ast.BoolOp):
            a, b = n.values[0], n.values[1]
            mid = src[span(a)[1]:span(b)[0]]
            w = "and" if isinstance(n.op, ast.And) else "or"
            if w in mid and len(n.values) == 2:
                out.append((span(a)[1], span(b)[0], mid.replace(w, "or" if w == "and" else "and"), "bool"))
            s, e = span(n)
            out.append((s, e, src[slice(*span(a))], "left operand only"))
            out.append((s, e, src[slice(*span(n.values[-1]))], "last operand only"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            s, e = span(n)
            out.append((s, e, src[slice(*span(n.operand))], "drop not"))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, bool):
            s, e = span(n)
            out.append((s, e, str(not n.value) if type(n.value) is bool else str(n.value + 1), "const"))
        elif isinstance(n, ast.BinOp) and type(n.op) in ops:
            mid = src[span(n.left)[1]:span(n.right)[0]]
            if mid.strip() in "+-*/&|//%":
                out.append((span(n.left)[1], span(n.right)[0], f" {ops[type(n.op)]} ", "arith"))
        elif isinstance(n, (ast.If, ast.IfExp)):
            s, e = span(n.test)
            out.append((s, e, f"(False and ({src[s:e]}))", "if false"))
            out.append((s, e, f"(True or ({src[s:e]}))", "if true"))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Delete)) and n not in docs:
            s, e = span(n)
            out.append((s, e, "pass", "delete statement"))
        elif isinstance(n, ast.Return) and n.value is not None:
            s, e = span(n.value)
            out.append((s, e, "None", "return None"))
        elif isinstance(n, ast.Call) and len(n.args) > 1 and not n.keywords:
            a, b = n.args[0], n.args[1]
            if not any(isinstance(x, ast.Starred) for x in (a, b)):
                sa, sb = span(a), span(b)
                out.append((sa[0], sb[1], src[sb[0]:sb[1]] + src[sa[1]:sb[0]] + src[sa[0]:sa[1]], "swap arguments"))
        elif isinstance(n, ast.Call) and n.keywords and n.keywords[-1].arg and n.args:
            out.append((span(n.args[-1])[1], span(n.keywords[-1].value)[1], "", "drop keywords"))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not n.args and not n.keywords \
                and n.func.attr in ("copy", "strip", "value", "data_parent", "lower"):
            out.append((span(n.func.value)[1], span(n)[1], "", "drop call"))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            out.append((span(n.value)[1], span(n)[1], "", "drop slice"))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in METH:
            s, e = span(n)
            out.append((e - len(n.attr), e, METH[n.attr], "other method"))
        if isinstance(n, (ast.Break, ast.Continue)):
            s, e = span(n)
            out.append((s, e, "continue" if isinstance(n, ast.Break) else "break", "break/continue"))
        if isinstance(n, ast.FunctionDef):
            params = {a.arg for a in n.args.args}
            names = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | params)
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names:
                    for y in names:
                        if y != x.id:
                            out.append((*span(x), y, "other variable"))
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name):
                    at = sorted({y.attr for y in ast.walk(tree) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name)
                                 and y.value.id == x.value.id} - {x.attr})
                    for y in at:
                        out.append((span(x)[1] - len(x.attr), span(x)[1], y, "other attribute"))
    return out


METH = {"append": "insert", "add": "discard", "update": "setdefault", "data_parent": "schema_parent", "startswith": "endswith",
        "partition": "rpartition", "find": "rfind", "min": "max", "lstrip": "rstrip", "rstrip": "strip", "keys": "values",
        "find1": "find_all", "find_all": "find1", "iname": "name", "default_mid": "text_mid", "text_mid": "default_mid",
        "intersection": "union", "issubset": "issuperset", "any": "all", "all": "any", "fullmatch": "match", "match": "search"}


def tests(w):
    tst = open("/opt/vp/test.sh").read().replace("/repo", w).replace("/opt/vp/work", w + "/.vpwork").replace("PYTHONPATH=/opt/vp ", f"PYTHONPATH={w}:/opt/vp ")
    open(w + "/.test.sh", "w").write(tst)
    try:
        subprocess.run(["bash", w + "/.test.sh", w + "/.out.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200, preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (4 << 30, 4 << 30)),
                       env={**os.environ, "PYTHONPATH": w})
        o = json.load(open(w + "/.out.json"))
    except Exception:
        return False
    return not set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"])


def copy(m):
    f, a, b, new, kind = m
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    files = subprocess.run(["git", "-C", "/repo", "ls-files", "-z"], capture_output=True).stdout.decode().split("\0")[:-1]
    for x in files:
        os.makedirs(os.path.dirname(f"{w}/{x}"), exist_ok=True)
        shutil.copyfile(f"/repo/{x}", f"{w}/{x}")
    p = f"{w}/yangson/{f}"
    s = open(p).read()
    open(p, "w").write(s[:a] + new + s[b:])
    return w


def first(m):
    w = copy(m)
    try:
        return tests(w)
    finally:
        shutil.rmtree(w)


def describe(m):
    f, a, b, new, kind = m
    s = open(f"/repo/yangson/{f}").read()
    ln = s[:a].count("\n") + 1
    return f"{f}:{ln} {kind}: {' '.join(s[a:b].split())[:90]!r} -> {' '.join(new.split())[:70]!r}   in: {s.split(chr(10))[ln - 1].strip()[:90]}"


def main():
    n, seed = int(sys.argv[1]), sys.argv[2]
    files = sys.argv[3:] or list(CHECKS)
    rng = random.Random(seed)
    pool = []
    for f in files:
        src = open(f"/repo/yangson/{f}").read()
        ms = [(f, *m) for m in muts(src)]
        if os.environ.get("KINDS"):
            ms = [m for m in ms if m[4] in os.environ["KINDS"].split(",")]
        pool += ms
    if os.environ.get("BALANCE"):       # as many of each kind
        kinds = {}
        for m in pool:
            kinds.setdefault(m[4], []).append(m)
        ms = [m for ks in kinds.values() for m in rng.sample(ks, min(len(ks), n // len(kinds) + 1))]
    else:
        ms = rng.sample(pool, min(n, len(pool)))
    print(f"{len(pool)} possible, {len(ms)} chosen", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("PAR", "4"))) as ex:
        alive = [m for m, ok in zip(ms, ex.map(first, ms)) if ok]
    print(f"{len(alive)} pass the tests", flush=True)
    caught = 0
    for m in alive:
        w = copy(m)
        try:
            by = ""
            for c in CHECKS[m[0]].split():
                p = subprocess.run([f"{HERE}/check", c], env={**os.environ, "VERIF_REPO": w}, capture_output=True)
                if p.returncode != 0:
                    by = c + ("" if p.returncode == 1 else f"(exit {p.returncode}: {p.stdout.decode()[-300:]})")
                    break
            caught += bool(by)
            print(("caught by " + by if by else "SURVIVES") + "  " + describe(m), flush=True)
        finally:
            shutil.rmtree(w)
    print(f"{caught} of {len(alive)} caught", flush=True)


main()
