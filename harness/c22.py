"""C22 Output filters and metadata."""
import smallcodec

LEVEL = "model_checking"


def run(ctx):
    smallcodec.check(ctx, "filter")
    res = ctx.drive("cddrive", "filters", ctx.n(120, 480), {"schemas": 2, "trees": 3, "filters": 4, "edits": 5})
    evs = [e for r in res for e in r]
    ctx.judge("TraceCodec", evs, group=lambda e: e["g"])
    for op in sorted({e["op"] for e in evs}):
        ctx.add(**{"events_" + op: sum(e["op"] == op for e in evs)})
    ctx.sample([str(e)[:300] for e in evs if e["op"] != "load"][:3])
