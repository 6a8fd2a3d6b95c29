"""C21 Command-line tools report the truth."""
LEVEL = "model_checking"


def run(ctx):
    ctx.model_check("MCCli", "MCCli.cfg")
    res = ctx.drive("clidrive", "runs", ctx.n(32, 160), {"libs": 6, "insts": 30, "schemas": 2, "trees": 2, "muts": 3})
    evs = [e for r in res for e in r]
    ctx.judge("TraceCli", evs, group=lambda e: e["g"])
    conv = [e for r in ctx.drive("clidrive", "conv", ctx.n(32, 160), {"n": 12}) for e in r]
    ctx.judge("TraceCli", conv)
    st = {}
    for e in evs + conv:
        if "status" in e:
            k = f"{e['op']} {e.get('cmd', '')} {e['status']}"
            st[k] = st.get(k, 0) + 1
    ctx.add(runs=sum(e["op"] == "run" for e in evs), conversions=len(conv), statuses=st)
    ctx.sample([{k: e[k] for k in ("args", "status", "err")} for e in evs if e["op"] == "run"][:5])
