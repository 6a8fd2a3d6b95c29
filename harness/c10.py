"""C10 XPath evaluation."""
LEVEL = "model_checking"


def run(ctx):
    res = ctx.drive("ddrive", "xpath", ctx.n(192, 768),
                    {"schemas": 2, "trees": 2, "exprs": 40, "opts": dict(max_depth=4, nodes=20)})
    res += ctx.drive("ddrive", "xpath_steps", ctx.n(96, 384), {"schemas": 1})
    res += ctx.drive("ddrive", "xpath_ops", ctx.n(48, 192), {"schemas": 1, "n": 300})
    evs = [e for r in res for e in r]
    ctx.judge("TraceData", evs, group=lambda e: e["g"])
    fns = {}
    for e in evs:
        if e["op"] == "xpath":
            k = e["out"][0]
            fns[k] = fns.get(k, 0) + 1
    ctx.add(expressions=sum(e["op"] == "xpath" for e in evs), results=fns,
            schemas=sum(e["op"] == "load" for e in evs))
    ctx.sample([e["text"] for e in evs if e["op"] == "xpath"][:12])
