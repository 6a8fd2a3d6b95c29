"""C13 A YANG library is loaded completely, in dependency order, or refused."""
LEVEL = "model_checking"


def run(ctx):
    ctx.model_check("MCLibrary", "MCLibraryT.cfg" if ctx.thorough else "MCLibrary.cfg")
    res = ctx.drive("libdrive", "loads", ctx.n(48, 192), {"n": 25})
    evs = [e for r in res for e in r]
    ctx.judge("TraceLibrary", evs)
    loads = [e for e in evs if e["op"] == "load"]
    outs = {}
    for e in loads:
        for r in e["runs"]:
            k = " ".join(r["out"])
            outs[k] = outs.get(k, 0) + 1
    ctx.add(libraries=len(loads), loads=sum(outs.values()), outcomes=outs)
    ctx.sample([{"library": e["lib"], "outcome": e["runs"][0]["out"]} for e in loads[:2]])
