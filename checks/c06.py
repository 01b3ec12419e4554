import os, vt, g16common as g


def run(ctx):
    exe = ctx.build(["batch"])["batch"]
    st = ctx.build(["batch"], mc=False)["batch"]
    ctx.design("BatchMC", "BatchMCDeep.cfg" if ctx.deep else "BatchMC.cfg", timeout=1500)
    files = g.runs(ctx, exe, [("c%d" % th, ["cases", str(i)], th) for i, th in enumerate((1, 2, 4, 8))])
    files += g.runs(ctx, st, [("st", ["cases", "9"], 1)])
    tr = g.concat(ctx, "all.ndjson", files)
    kinds = {}
    for r in vt.lines(tr):
        b = sum(x != "ok" for x in r["single"])
        k = "all valid" if b == 0 else "one wrong" if b == 1 else "several wrong"
        kinds[k] = kinds.get(k, 0) + 1
    ctx.cov["batches"] = kinds
    ctx.need(ctx.violations or all(kinds.get(k, 0) > 40 for k in ("all valid", "one wrong", "several wrong")), "batches %s" % kinds)
    ctx.sample_lines(files[0], 2)
    ctx.validate("BatchTrace", tr, what="batch verification", timeout=1500)
    w = g.runs(ctx, exe, [("tosses", ["tosses"], 4), ("weights", ["weights"], 1)])
    w = g.concat(ctx, "w.ndjson", w)
    ctx.validate("WeightTrace", w, what="weights of batch verification", timeout=1500)
    ctx.assumptions.append("verify_multicore draws from the operating system's generator: its runs differ from one check to the next")
    g.full(ctx, ['weights'], "entropy of the weights")
