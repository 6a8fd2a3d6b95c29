"""C12 Features and if-feature conditions select exactly the enabled schema."""
LEVEL = "model_checking"


def run(ctx):
    ctx.model_check("MCFeatures", "MCFeaturesT.cfg" if ctx.thorough else "MCFeatures.cfg")
    res = ctx.drive("fedrive", "exprs", ctx.n(120, 480), {"worlds": 8, "exprs": 40})
    evs, n = [], 0
    for r in res:
        for e in r:
            n += e["op"] == "load"
            e["g"] = n
            evs.append(e)
    ctx.judge("TraceFeatures", evs, group=lambda e: e["g"])
    ctx.add(worlds=n, expressions=sum(e["op"] == "iff" for e in evs),
            refused=sum(e["op"] == "iff" and e["out"][0] == "err" for e in evs),
            refused_models=sum(e["op"] == "load" and e["out"][0] == "err" for e in evs))
    ctx.sample([str(e)[:300] for e in evs if e["op"] != "load"][:3])
    # statements guarded by if-feature, everywhere in modules
    res = ctx.drive("asmdrive", "schemas", ctx.n(96, 384), {"worlds": 4, "opts": {"features": 2.2}})
    evs = [e for r in res for e in r]
    ctx.judge("TraceAssemble", evs)
    ctx.add(guarded_models=len(evs), guarded_refused=sum(e["out"][0] == "err" for e in evs))
