"""C18 Purity of validation."""
LEVEL = "model_checking"


def run(ctx):
    res = ctx.drive("ddrive", "purity", ctx.n(192, 768),
                    {"schemas": 2, "trees": 3, "muts": 3, "steps": 60, "opts": dict(max_depth=4, nodes=20)})
    evs = [e for r in res for e in r]
    ctx.judge("TraceData", evs, group=lambda e: e["g"])
    ctx.add(comparisons=sum(e["op"] == "same" for e in evs) // 2,
            validations=sum(e["op"] == "valid" for e in evs), schemas=sum(e["op"] == "load" for e in evs))
    ctx.sample([e for e in evs if e["op"] == "same"][:4])
