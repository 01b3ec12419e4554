import os, vt, g16common as g


def run(ctx):
    exe = ctx.build(["g16"])["g16"]
    st = ctx.build(["g16"], mc=False)["g16"]
    progs = g.programs(ctx, 4000 if ctx.deep else 300)
    jobs = [("run%d" % i, ["run", progs, str(i), "5"], th) for i, th in enumerate([1, 2, 3, 5, 8])]
    jobs += [("run16", ["run", progs, "2", "9"], 16)]
    jobs += [("small", ["rand", "small"], 7), ("big3", ["rand", "big"], 3), ("big8", ["rand", "big"], 8), ("edge", ["edge"], 2)]
    files = g.runs(ctx, exe, jobs)
    files += g.runs(ctx, st, [("st_small", ["rand", "small"], 1), ("st_edge", ["edge"], 1)])
    tr = g.concat(ctx, "all.ndjson", files)
    res = {}
    for r in vt.lines(tr):
        k = r["ev"][0]["res"]
        res[k] = res.get(k, 0) + 1
    ctx.cov["generator_results"] = res
    ctx.sample_lines(files[5], 2)
    ctx.validate("Groth16Trace", tr, "Groth16Trace_C03.cfg", what="parameter generation", timeout=3000)
    rg = g.runs(ctx, exe, [("randgen", ["randgen"], 4)])[0]
    ctx.sample_lines(rg, 1)
    ctx.validate("RandGenTrace", rg, what="random parameter generation")
    g.full(ctx, ['toxic'], "entropy of the toxic waste")
