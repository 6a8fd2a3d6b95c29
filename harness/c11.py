"""C11 XPath syntax."""
LEVEL = "model_checking"


def run(ctx):
    res = ctx.drive("xpdrive", "texts", ctx.n(144, 576),
                    {"schemas": 2, "exprs": 80, "soup": 60, "opts": dict(max_depth=3, nodes=12)})
    n = 16
    sh = ctx.drive_parts("xpdrive", "short", [{"k": k, "n": n, "len": ctx.n(3, 4), "p": 0.08} for k in range(n)])
    evs = [e for r in res + sh for e in r]
    ctx.judge("TraceXSyntax", evs, group=lambda e: e["g"])
    ok = sum(e["op"] == "xparse" and e["out"][0] == "ok" for e in evs)
    ctx.add(texts=sum(e["op"] == "xparse" for e in evs), accepted=ok, evaluated=sum(e["op"] == "xeval" for e in evs))
    ctx.sample([e["text"] for e in evs if e["op"] == "xparse"][:12])
