"""Small sets of restrictions for MCTypes, and all chains TLC finds built in the real library."""
import base64
import itertools
import json
import os
import random

import models
from tydrive import fmt, layer
from values import INTR
from ygen import q
from yangson.exceptions import YangsonException


def parts(pts):
    one = [[p] for p in pts] + [[a, b] for a in pts for b in pts]
    return ["..".join(p) for p in one]


def ranges(rng, lo, hi, fd, n):
    """Written ranges over lo..hi (n of them at random)."""
    pts = ["min", "max"] + [fmt(x, fd) for x in range(lo, hi + 1)]
    one = parts(pts)
    asc = []
    for _ in range(2 * n):      # ascending parts with small gaps
        x, ps = rng.randint(lo, hi), []
        for _ in range(rng.randint(2, 3)):
            y = x + rng.choice([0, 0, 1, 2, 3])
            ps.append(fmt(x, fd) if x == y else fmt(x, fd) + ".." + fmt(y, fd))
            x = y + rng.choice([1, 1, 2, 2, 3])
        asc.append((rng.random() < 0.5, " | ".join(ps)))
    good = [t for _, t in asc]
    any2 = [a + rng.choice(["|", " | "]) + b for a, b in zip(rng.choices(one, k=n), rng.choices(one, k=n))]
    pool = sorted(set(one + good + any2))
    return rng.sample(pool, min(n, len(pool)))


def first(rng, lo, hi, fd, n):
    res = ["", fmt(lo, fd) + ".." + fmt(hi, fd)]
    while len(res) < n:
        x, ps = lo + rng.randint(0, 2), []
        while x <= hi and len(ps) < 4:
            y = min(hi, x + rng.choice([0, 1, 1, 2, 3]))
            ps.append(fmt(x, fd) if x == y else fmt(x, fd) + ".." + fmt(y, fd))
            x = y + rng.choice([1, 1, 2, 2, 3])
        if rng.random() < 0.2:
            ps[0] = "min.." + ps[0].split("..")[-1]
        if rng.random() < 0.2:
            ps[-1] = ps[-1].split("..")[0] + "..max"
        res.append("|".join(ps))
    return res


def names(rng, pool, n, neg):
    """Enum or bit statements of a built-in type (unique numbers)."""
    res = []
    while len(res) < n:
        es, used, high = [], set(), None
        for x in rng.sample(pool, rng.randint(1, len(pool))):
            v = rng.choice(["", "", str(rng.choice([0, 1, 2, 5] + ([-1, -7] if neg else [])))])
            k = int(v) if v else 0 if high is None else high + 1
            if k in used:
                break
            used.add(k)
            high = k if high is None else max(high, k)
            es.append([x, v, True])
        else:
            res.append(es)
    return res


def sub(rng, pool, n, neg):
    res = []
    for _ in range(n):
        es = [[x, rng.choice(["", "", str(rng.choice([0, 1, 2, 3, 5, 6] + ([-1] if neg else [])))]), True]
              for x in rng.sample(pool, rng.randint(1, len(pool)))]
        res.append(es)
    return res


def gen(seed, n2, n3):
    rng = random.Random(seed)
    res = []
    for b, fd in ((rng.choice(["int8", "int16", "int32", "int64"]), 0), (rng.choice(["uint8", "uint16", "uint32", "uint64"]), 0),
                  ("decimal64", rng.choice([1, 1, 2, 18])), ("string", 0), ("binary", 0)):
        f = fd if fd else None
        lo, hi = {"i": (-3, 5), "u": (0, 8), "d": (-4, 4), "s": (0, 6), "b": (0, 6)}[b[0]]
        key = "ln" if b in ("string", "binary") else "rg"
        mk = lambda ts: [layer(**{key: t}) for t in ts]
        if b == "string":
            pool = ["", "a", "bb", "é€", "ccc", "dddd", "eeeee", "ffffff", "ggggggg"]
        elif b == "binary":
            pool = [base64.b64encode(bytes(range(i))).decode() for i in range(8)]
        else:
            pool = [fmt(x, f) for x in range(lo, hi + 1)]
        dense = True
        if b == "decimal64":
            pool = ["0", "-0", "1", "-1", "0.1", "+0.1", "00.1"] + pool
        elif b not in ("string", "binary"):
            mn, mx = INTR[b]
            pool += [str(mn), str(mx), str(mn - 1), str(mx + 1), "+1", "01", "-0", "1.0"]
        l3 = ranges(rng, lo, hi, f, n3)
        if b == "string":
            for x in l3[: len(l3) // 2]:
                pass
        res.append({"b": b, "fd": fd, "dense": dense, "pool": pool,
                    "opts": [mk(first(rng, lo, hi, f, 8)), mk(ranges(rng, lo, hi, f, n2)), mk(l3)]})
    for b, key in (("enumeration", "en"), ("bits", "bt")):
        nm = ["a", "b-1", "c.c"]
        pool = nm + ["", "A", "a b", "a b-1", "b-1 a", "c.c a b-1", "d", "d a", "a "]
        mk = lambda es: [layer(**{key: e}) for e in es]
        neg = b == "enumeration"
        pool = [p for p in pool if not (neg and " " in p)]
        res.append({"b": b, "fd": 0, "dense": False, "pool": pool,
                    "opts": [mk(names(rng, nm, 12, neg)), mk(sub(rng, nm + ["d"] * (rng.random() < 0.5), n2 // 2, neg)),
                             mk(sub(rng, nm, n3, neg))]})
    return res


def text(b, fd, ly, name):
    """Typedefs and leaf of a chain."""
    res, cur = [], f"type {b}"
    for i, y in enumerate(ly):
        t = []
        if b == "decimal64" and i == 0:
            t.append(f"fraction-digits {fd};")
        if y["rg"]:
            t.append(f"range {q(y['rg'])};")
        if y["ln"]:
            t.append(f"length {q(y['ln'])};")
        for kw, f, k in (("enum", "value", "en"), ("bit", "position", "bt")):
            for n, v, _ in y[k]:
                t.append(f"{kw} {q(n)}" + (f" {{ {f} {v}; }}" if v else ";"))
        cur += " { " + " ".join(t) + " }" if t else ";"
        if i < len(ly) - 1:
            res.append(f"typedef {name}-{i} {{ {cur} }}")
            cur = f"type {name}-{i}"
    return res, f"leaf {name} {{ {cur} }}"


def build(chains):
    tds, leaves = [], []
    for name, b, fd, ly in chains:
        t, leaf = text(b, fd, ly, name)
        tds += t
        leaves.append(leaf)
    return models.load({"m1": models.header("m1", "m1", tds + leaves)})


def replay(rng, payload):
    bad, n = [], 0
    good = [s for s in payload if s["k"] == "ok"]
    for i in range(0, len(good), 150):
        part = good[i:i + 150]
        chains = [(f"x{k}", s["b"], s["fd"], s["ly"]) for k, s in enumerate(part)]
        try:
            dm = build(chains)
        except Exception:
            dm = None
        for (name, b, fd, ly), s in zip(chains, part):
            n += 1
            try:
                t = (dm or build([(name, b, fd, ly)])).get_data_node(f"/m1:{name}").type
            except Exception as e:
                bad.append({"what": "refused", "type": text(b, fd, ly, name), "error": f"{type(e).__name__}: {e}"})
                continue
            for x, k in zip(s["pool"], s["acc"]):
                if k == "odd":
                    continue
                n += 1
                v = t.parse_value(x)
                got = "no" if v is None or v not in t else "yes"
                if got != k:
                    bad.append({"what": f"value {got} instead of {k}", "value": x, "type": text(b, fd, ly, name)})
                elif got == "yes":
                    c = t.canonical_string(v)
                    if not (t.parse_value(c) == v and t.from_raw(t.to_raw(v)) == v):
                        bad.append({"what": "value is not read back", "value": x, "type": text(b, fd, ly, name)})
            if b in ("enumeration", "bits"):
                num = [list(x) for x in (t.sorted_enums() if b == "enumeration" else t.sorted_bits())]
                if sorted(num) != sorted(s["num"]):
                    bad.append({"what": "numbers", "got": num, "exp": s["num"], "type": text(b, fd, ly, name)})
    for s in payload:
        if s["k"] == "bad":
            n += 1
            c = ("x", s["b"], s["fd"], s["ly"])
            try:
                build([c])
            except YangsonException:
                continue
            bad.append({"what": "restriction accepted", "type": text(s["b"], s["fd"], s["ly"], "x")})
    return n, bad[:20]


def check(ctx):
    ms = [m for k in range(ctx.n(1, 3)) for m in gen(f"{ctx.prop}/{ctx.seed}/{k}", ctx.n(70, 160), ctx.n(5, 10))]
    f = os.path.join(ctx.scratch, "smalltypes.ndjson")
    with open(f, "w") as h:
        for m in ms:
            h.write(json.dumps(m) + "\n")
    out = ctx.model_check("MCTypes", "MCTypes.cfg", env={"MODEL": f})
    sts = []
    for line in out.splitlines():
        if line.startswith('"@@ST '):
            st = json.loads(json.loads(line)[5:])
            m = ms[st["m"] - 1]
            st.update(b=m["b"], fd=m["fd"], pool=m["pool"])
            sts.append(st)
    from core import MachineryError, NCPU
    if len(sts) < 100:
        raise MachineryError("no chains")
    sts.sort(key=lambda s: (s["m"], json.dumps(s["ly"])))
    n = 0
    for k, bad in ctx.drive_parts("smalltypes", "replay", [sts[i::NCPU] for i in range(NCPU)]):
        n += k
        for b in bad:
            ctx.violation("small type: " + b["what"], b)
    ctx.add(small_types=len(sts), small_types_refused=sum(s["k"] == "bad" for s in sts), small_type_checks=n)
