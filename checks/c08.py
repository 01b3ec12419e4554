import os, vt, g16common as g


def run(ctx):
    exe = ctx.build(["pool", "det"])
    st = ctx.build(["pool", "det"], mc=False)
    ths = (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 24, 33, 64) if not ctx.deep else tuple(range(1, 18)) + (24, 31, 32, 33, 64)
    ctx.design("Chunks", timeout=900)
    files = g.runs(ctx, exe["pool"], [("scope%d" % t, ["scope"], t) for t in ths])
    files += g.runs(ctx, st["pool"], [("scopest", ["scope"], 1)])
    tr = g.concat(ctx, "scope.ndjson", files)
    ctx.sample_lines(tr, 1)
    ctx.validate("ScopeTrace", tr, what="parallel regions")
    outs = g.runs(ctx, st["det"], [("detst", ["det"], 1)])
    outs += g.runs(ctx, exe["det"], [("det%d" % t, ["det"], t) for t in ths])
    by = {}
    for f, t in zip(outs, (0,) + ths):
        for r in vt.lines(f):
            by.setdefault(r["name"], []).append({"e": "run", "T": t, "out": r["out"]})
    ctx.need(len(by) > 600, "computations")
    rows = [{"T": 1, "mc": True, "name": k, "ev": v} for k, v in by.items()]
    for r in rows:
        ctx.need(len(r["ev"]) == len(outs), "missing run of " + r["name"])
    ctx.cov["computations"] = len(by)
    ctx.cov["thread_counts"] = ["without multicore"] + list(ths)
    p = os.path.join(ctx.work, "det.ndjson")
    vt.dump(p, rows)
    ctx.sample_lines(p, 1)
    ctx.validate("ScopeTrace", p, what="results under different numbers of threads", tag="-det", count=len(rows) * len(outs))
