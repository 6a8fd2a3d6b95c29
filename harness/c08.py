"""C08 JSON decoding and encoding."""
import smallcodec

LEVEL = "model_checking"


def run(ctx):
    smallcodec.check(ctx, "json")
    res = ctx.drive("cddrive", "jsondocs", ctx.n(120, 480), {"schemas": 2, "trees": 4, "docs": 6})
    evs = [e for r in res for e in r]
    ctx.judge("TraceCodec", evs, group=lambda e: e["g"])
    dec = [e for e in evs if e["op"] == "jdec"]
    ctx.add(documents=len(dec), refused=sum(e["out"][0] == "err" for e in dec), encodings=sum(e["op"] == "jenc" for e in evs))
    ctx.sample([str(e["j"])[:300] for e in dec[:3]])
