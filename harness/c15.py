"""C15 The schema tree is assembled from modules as YANG prescribes."""
LEVEL = "model_checking"


def run(ctx):
    ctx.model_check("MCAssemble", "MCAssembleT.cfg" if ctx.thorough else "MCAssemble.cfg")
    res = ctx.drive("asmdrive", "schemas", ctx.n(144, 576), {"worlds": 5, "opts": {"acm": True}})
    evs = [e for r in res for e in r]
    ctx.judge("TraceAssemble", evs)
    ctx.add(models=len(evs), refused=sum(e["out"][0] == "err" for e in evs))
    ctx.sample([str(e["files"])[:300] for e in evs][:3])
