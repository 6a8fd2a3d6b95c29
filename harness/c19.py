"""C19 Structured values compare and hash by content."""
LEVEL = "model_checking"


def run(ctx):
    ctx.model_check("MCValues", "MCValues.cfg" if not ctx.thorough else "MCValuesT.cfg")
    res = ctx.drive("eqdrive", "history", ctx.n(180, 720), {"histories": 12, "steps": 14})
    n = 0
    evs = []
    for r in res:
        for e in r:
            n += e["op"] == "load"
            e["g"] = n
            evs.append(e)
    ctx.judge("TraceValues", evs, group=lambda e: e["g"])
    cmps = [e for e in evs if e["op"] == "cmp"]
    ctx.add(histories=n, steps=sum(e["op"] == "step" for e in evs), comparisons=len(cmps),
            equal_pairs=sum(e["eq"] == "yes" and e["i"] != e["j"] for e in cmps))
    ctx.sample([str(e)[:300] for e in evs if e["op"] == "cmp"][:3])
