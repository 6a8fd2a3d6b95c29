"""C07 Default completion."""
import smalldata

LEVEL = "model_checking"


def run(ctx):
    res = ctx.drive("ddrive", "defaults", ctx.n(288, 1152),
                    {"schemas": 3, "trees": 3, "opts": dict(max_depth=4, nodes=22)})
    evs = [e for r in res for e in r]
    ctx.judge("TraceData", evs, group=lambda e: e["g"])
    ctx.add(completions=sum(e["op"] == "defaults" for e in evs),
            schemas=sum(e["op"] == "load" for e in evs))
    ctx.sample([{k: v for k, v in e.items()} for e in evs if e["op"] == "defaults"][:2])
    smalldata.check(ctx, "defaults", ["defaults"])
