"""Driver of C19: histories of structured values."""
import datetime
import decimal

from values import cook, proj
from yangson.instvalue import ArrayValue, ObjectValue

CASE_CPU = 60
M61 = 2 ** 61 - 1
# families of scalars that hash alike or look alike
FAMILIES = [
    [-1, -2, decimal.Decimal(-1), decimal.Decimal("-2.0")],
    [0, M61, -M61, "", b"", False, decimal.Decimal("0.0"), (), decimal.Decimal("-0.0")],
    [1, True, decimal.Decimal("1.0"), M61 + 1, "1", "true", b"1", ("1",)],
    [2, M61 + 2, decimal.Decimal("2.00"), "2"],
    ["a", ("a",), b"a", ("a", "a"), ("a", "b"), ("b", "a"), "b"],
    [(None,), "None", "", ()],
    [decimal.Decimal("0.1"), decimal.Decimal("0.10"), decimal.Decimal("0.01"), 10],
    [2 ** 63 - 1, -2 ** 63, 2 ** 64 - 1, 2 ** 31],
]
NAMES = ["a", "b", "m:a", "a1", "@a", "@", "@m:a"]
METAS = [{"m:x": "1"}, {"m:x": "2"}, {"m:y": "1"}, {"m:x": "1", "m:y": ("a", "m")}, {}]
METALISTS = [[{"m:x": "1"}], [], [{"m:x": "1"}, {}], [{"m:x": "2"}]]


def ans(f):
    r = f()
    return "yes" if r is True else "no" if r is False else f"{r!r}"


def scalar(rng, fams):
    return rng.choice(rng.choice(fams))


def history(rng, payload):
    out = []
    for _ in range(payload["histories"]):
        out.extend(one(rng, payload))
    return out


def one(rng, payload):
    evs = [{"op": "load"}]
    cells = []
    kind = []
    fams = rng.sample(FAMILIES, rng.choice([1, 2, 3]))
    names = rng.sample(NAMES[:4], rng.choice([1, 2, 4])) + rng.sample(NAMES[4:], rng.choice([0, 0, 1, 3]))

    def slot(top):
        """(value, tagged slot) for a cell with references below `top` only."""
        if top > 0 and rng.random() < .35:
            k = rng.randrange(top)
            return cells[k], ["ref", k + 1]
        v = scalar(rng, fams)
        return v, proj(v)

    def member(top, name):
        if name.startswith("@"):
            v = rng.choice(METAS if name == "@" or rng.random() < .7 else METALISTS)
            v = v.copy()
            return v, (["o", [[k, proj(x)] for k, x in v.items()]] if isinstance(v, dict)
                       else ["a", [["o", [[k, proj(x)] for k, x in d.items()]] for d in v]])
        return slot(top)

    def stamp():
        return rng.choice([None, datetime.datetime(2020, 1, 1), datetime.datetime.now()])

    def new():
        top = len(cells)
        if rng.random() < .6:
            ns = [n for n in names if rng.random() < .6]
            rng.shuffle(ns)
            ms = [(n, *member(top, n)) for n in ns]
            how = rng.randrange(3)
            if how == 0:
                c = ObjectValue({n: v for n, v, _ in ms}, stamp())
            elif how == 1:
                c = ObjectValue()
                for n, v, _ in ms:
                    c[n] = v
            else:
                c = ObjectValue({}, stamp())
                c.update({n: v for n, v, _ in ms})
            cells.append(c)
            kind.append("o")
            return {"op": "step", "do": "new", "c": ["o", [[n, t] for n, _, t in ms]]}
        ms = [slot(top) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if rng.random() < .6:
            c = ArrayValue([v for v, _ in ms], stamp())
        else:
            c = ArrayValue()
            for v, _ in ms:
                c.append(v)
        cells.append(c)
        kind.append("a")
        return {"op": "step", "do": "new", "c": ["a", [t for _, t in ms]]}

    def twin():
        """A cell made anew with nearly the contents of another one."""
        k = rng.randrange(len(cells))
        src = cells[k]
        near = rng.random() < .6

        def swap(v):
            if near and rng.random() < .3 and not isinstance(v, (ObjectValue, ArrayValue, dict, list)):
                return rng.choice(next((f for f in FAMILIES if any(type(x) is type(v) and x == v for x in f)), [v]))
            return v
        if kind[k] == "o":
            items = [(n, swap(v)) for n, v in src.items()]
            rng.shuffle(items)
            c = ObjectValue(dict(items), stamp())
            t = ["o", [[n, tag(v, len(cells))] for n, v in items]]
        else:
            items = [swap(v) for v in src]
            if near and rng.random() < .3:
                rng.shuffle(items)
            c = ArrayValue(items)
            t = ["a", [tag(v, len(cells)) for v in items]]
        cells.append(c)
        kind.append(kind[k])
        return {"op": "step", "do": "new", "c": t}

    def tag(v, top):
        for i in range(top):
            if cells[i] is v:
                return ["ref", i + 1]
        if isinstance(v, dict):
            return ["o", [[k, proj(x)] for k, x in v.items()]]
        if isinstance(v, list):
            return ["a", [["o", [[k, proj(x)] for k, x in d.items()]] for d in v]]
        return proj(v)

    def show():
        return {"op": "show", "v": [proj(c) for c in cells]}

    def compare(i, j):
        a, b = cells[i], cells[j]
        return {"op": "cmp", "i": i + 1, "j": j + 1, "eq": ans(lambda: a == b), "ne": ans(lambda: a != b),
                "hash": ans(lambda: hash(a) == hash(b)), "mem": ans(lambda: b in {a}),
                "lst": ans(lambda: b in [0, a])}

    for _ in range(payload["steps"]):
        x = rng.random()
        if not cells or x < .25 and len(cells) < 9:
            evs.append(new())
        elif x < .45 and len(cells) < 9:
            evs.append(twin())
        elif x < .55 and len(cells) < 9:
            k = rng.randrange(len(cells))
            c = cells[k].copy()
            evs.append({"op": "step", "do": "copy", "k": k + 1})
            cells.append(c)
            kind.append(kind[k])
            evs.append(show())
            evs.append(compare(k, len(cells) - 1))
        else:
            k = rng.randrange(len(cells))
            c = cells[k]
            if kind[k] == "o":
                if c and rng.random() < .4:
                    n = rng.choice(sorted(c))
                    if rng.random() < .5:
                        del c[n]
                    else:
                        c.pop(n)
                    evs.append({"op": "step", "do": "del", "k": k + 1, "x": n})
                else:
                    n = rng.choice(names)
                    # no cycles: references to cells made before, and to no copy of a later one
                    v, t = member(0 if kind[k] == "o" and rng.random() < .5 else safe(cells, k), n)
                    c[n] = v
                    evs.append({"op": "step", "do": "set", "k": k + 1, "x": n, "s": t})
            else:
                if c and rng.random() < .4:
                    i = rng.randrange(len(c))
                    del c[i]
                    evs.append({"op": "step", "do": "del", "k": k + 1, "x": i + 1})
                elif c and rng.random() < .5:
                    i = rng.randrange(len(c))
                    v, t = slot(safe(cells, k))
                    c[i] = v
                    evs.append({"op": "step", "do": "set", "k": k + 1, "x": i + 1, "s": t})
                else:
                    v, t = slot(safe(cells, k))
                    c.append(v)
                    evs.append({"op": "step", "do": "add", "k": k + 1, "s": t})
            if rng.random() < .3:
                evs.append(show())
        if cells:
            for _ in range(rng.choice([0, 1, 3])):
                evs.append(compare(rng.randrange(len(cells)), rng.randrange(len(cells))))
        if cells and rng.random() < .2:
            i = rng.randrange(len(cells))
            c = cells[i]
            for what, o in (("plain", dict(c) if kind[i] == "o" else list(c)), ("None", None),
                            ("other class", ArrayValue() if kind[i] == "o" else ObjectValue()), ("scalar", 0), ("text", "")):
                evs.append({"op": "other", "what": what, "eq": ans(lambda: c == o), "ne": ans(lambda: c != o)})
    evs.append(show())
    for i in range(len(cells)):
        for j in range(len(cells)):
            evs.append(compare(i, j))
    return evs


def safe(cells, k):
    """Cells with smaller index only (these cannot contain cell k)."""
    return k
