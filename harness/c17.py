"""C17 types and their value spaces."""
import smalltypes

LEVEL = "model_checking"


def run(ctx):
    smalltypes.check(ctx)
    res = ctx.drive("tydrive", "types", ctx.n(144, 576), {"types": ctx.n(16, 40), "values": ctx.n(30, 60)})
    evs = [e for r in res for e in r]
    ctx.judge("TraceTypes", evs, group=lambda e: e["g"])
    ty = [e for e in evs if e["op"] == "type"]
    ctx.add(types=len(ty), refused_types=sum(e["out"][0] == "err" for e in ty), values=len(evs) - len(ty),
            accepted_values=sum(e["op"] == "val" and e["out"][0] == "yes" for e in evs))
    ctx.sample([e["text"]["m2"] for e in ty[:2]])
