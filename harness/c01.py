"""C01 Instance data are persistent."""
LEVEL = "model_checking"


import zmodel


def run(ctx):
    zmodel.check(ctx, want=lambda b: b["what"] == "persistence")
    zip_check(ctx, "persist", "full")


def zip_check(ctx, mode, weights):
    res = ctx.drive("zdrive", "histories", ctx.n(192, 900),
                    {"weights": weights, "hists": 3, "steps": 26,
                     "opts": dict(max_depth=3, nodes=16)})
    evs = [e for r in res for e in r]
    ctx.judge("TraceZipper", evs, group=lambda e: e["hist"], init_env={"MODE": mode})
    ctx.add(histories=sum(e["op"] == "load" for e in evs))
    ops = {}
    for e in evs:
        ops[e["op"]] = ops.get(e["op"], 0) + 1
    ctx.coverage["operations"] = ops
    ctx.sample([{k: v for k, v in e.items() if k not in ("schema",)} for e in evs[:6]])
