"""C05 Schema (syntax) validation."""
import smalldata

LEVEL = "model_checking"
KIND = "syntax"


def run(ctx, kind=KIND):
    res = ctx.drive("ddrive", "validation", ctx.n(288, 1152),
                    {"schemas": 3, "trees": 3, "muts": 5, "kind": kind, "opts": dict(max_depth=4, nodes=22)})
    evs = [e for r in res for e in r]
    ctx.judge("TraceData", evs, group=lambda e: e["g"])
    st = {}
    for e in evs:
        if e["op"] == "valid":
            k = "valid" if e["out"][0] == "ok" else e["out"][2]
            st[k] = st.get(k, 0) + 1
    ctx.add(validations=sum(e["op"] == "valid" for e in evs), outcomes=st,
            schemas=sum(e["op"] == "load" for e in evs))
    ctx.sample([e for e in evs if e["op"] == "valid"][:6])
    smalldata.check(ctx, kind, ["syntax"] if kind == "syntax" else ["semantics", "all"])
