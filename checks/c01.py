import os, vt, g16common as g


def run(ctx):
    exe = ctx.build(["g16"])["g16"]
    st = ctx.build(["g16"], mc=False)["g16"]
    ctx.design("Groth16MC", "Groth16MCDeep.cfg" if ctx.deep else "Groth16MCQuick.cfg", timeout=1500)
    progs = g.programs(ctx, 4000 if ctx.deep else 400)
    jobs = [("run%d" % i, ["run", progs, str(i), "5"], th) for i, th in enumerate([1, 2, 3, 4, 8])]
    jobs += [("run16", ["run", progs, "2", "9"], 16)]
    jobs += [("small", ["rand", "small"], 4), ("big3", ["rand", "big"], 3), ("big8", ["rand", "big"], 8), ("edge", ["edge"], 2)]
    files = g.runs(ctx, exe, jobs)
    files += g.runs(ctx, st, [("st_small", ["rand", "small"], 1), ("st_big", ["rand", "big"], 1)])
    tr = g.concat(ctx, "all.ndjson", files)
    rows = vt.lines(tr)
    ctx.need(sum(1 for r in rows for e in r["ev"] if e["e"] == "prove" and e["res"] == "ok") > 500 or ctx.violations,
             "hardly any proof was made")
    ctx.sample_lines(files[0], 2)
    ctx.sample_lines(files[5], 1)
    ctx.validate("Groth16Trace", tr, "Groth16Trace_C01.cfg", what="completeness of Groth16", timeout=3000)
    g.full(ctx, ['prove'], "completeness at full size")
