"""C04 instance identifiers, resource identifiers and routes."""
LEVEL = "model_checking"


def run(ctx):
    res = ctx.drive("iddrive", "ids", ctx.n(120, 480), {"schemas": 2, "trees": 3, "nodes": 25, "ids": 60})
    evs = [e for r in res for e in r]
    ctx.judge("TraceIds", evs, group=lambda e: e["g"])
    ctx.add(routes=sum(e["op"] == "route" for e in evs), instance_ids=sum(e["op"] == "iid" for e in evs),
            resource_ids=sum(e["op"] == "rid" for e in evs), lookups=sum(e["op"] == "look" for e in evs),
            found=sum(e.get("go", [""])[0] == "at" for e in evs))
    ctx.sample([e["txt"] for e in evs if e["op"] in ("iid", "rid")][:6])
