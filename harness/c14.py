"""C14 Identity derivation is the transitive closure of base statements."""
LEVEL = "model_checking"


def run(ctx):
    ctx.model_check("MCIdentities", "MCIdentitiesT.cfg" if ctx.thorough else "MCIdentities.cfg")
    res = ctx.drive("idtdrive", "queries", ctx.n(120, 480), {"graphs": 8, "queries": 40})
    evs, n = [], 0
    for r in res:
        for e in r:
            n += e["op"] == "load"
            e["g"] = n
            evs.append(e)
    ctx.judge("TraceIdentities", evs, group=lambda e: e["g"])
    for op in ("load", "der", "from", "all", "digest", "val", "xp"):
        ctx.add(**{"events_" + op: sum(e["op"] == op for e in evs)})
    ctx.sample([str({k: v for k, v in e.items()})[:300] for e in evs if e["op"] != "load"][:3])
