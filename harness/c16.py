"""C16 YANG source text is parsed exactly by the YANG grammar."""
LEVEL = "model_checking"


def run(ctx):
    ctx.model_check("MCYang", "MCYangT.cfg" if ctx.thorough else "MCYang.cfg")
    res = ctx.drive("yangdrive", "texts", ctx.n(120, 480), {"n": 60})
    evs = [e for r in res for e in r]
    ctx.judge("TraceYang", evs)
    ps = [e for e in evs if e["op"] == "parse"]
    ctx.add(texts=len(ps), parsed=sum(e["out"][0] == "ok" for e in ps), refused=sum(e["out"][0] != "ok" for e in ps),
            searches=len(evs) - len(ps))
    ctx.sample([e["text"][:300] for e in ps][:5])
