"""C20 Schema nodes are addressed consistently."""
LEVEL = "model_checking"


def run(ctx):
    ctx.model_check("MCAddress", "MCAddressT.cfg" if ctx.thorough else "MCAddress.cfg")
    res = ctx.drive("addrdrive", "worlds", ctx.n(144, 576), {"worlds": 3, "n": 40})
    evs = [e for r in res for e in r]
    ctx.judge("TraceAddress", evs)
    # the types in digests, with all their restrictions
    res = ctx.drive("tydrive", "types", ctx.n(96, 384), {"types": ctx.n(16, 40), "values": 0, "digest": True})
    dg = [e for r in res for e in r if e["op"] == "digest"]
    ctx.judge("TraceTypes", dg)
    ctx.add(type_digests=len(dg))
    ctx.add(models=len(evs), lookups=sum(len(e["qs"]) for e in evs), trees=sum(q["how"] == "tree" for e in evs for q in e["qs"]))
    ctx.sample([str(q)[:200] for e in evs[:3] for q in e["qs"][3:6]])
