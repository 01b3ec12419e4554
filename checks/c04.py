import os, vt, g16common as g


def run(ctx):
    exe = ctx.build(["g16"])["g16"]
    st = ctx.build(["g16"], mc=False)["g16"]
    ctx.design("Groth16MC", "Groth16MCZk.cfg" if ctx.deep else "Groth16MCZkQuick.cfg", timeout=1500)
    progs = g.programs(ctx, 4000 if ctx.deep else 300)
    jobs = [("run%d" % i, ["run", progs, str(i), "5"], th) for i, th in enumerate([1, 2, 3, 6, 8])]
    jobs += [("small", ["rand", "small"], 4), ("big3", ["rand", "big"], 3), ("big8", ["rand", "big"], 8), ("edge", ["edge"], 2)]
    files = g.runs(ctx, exe, jobs)
    files += g.runs(ctx, st, [("st_small", ["rand", "small"], 1)])
    tr = g.concat(ctx, "all.ndjson", files)
    ctx.sample_lines(files[5], 2)
    ctx.validate("Groth16Trace", tr, "Groth16Trace_C04.cfg", what="proof elements", timeout=3000)
    zk = g.runs(ctx, exe, [("zk", ["zk"], 4)])[0]
    ctx.need(any(r["ok"] for r in vt.lines(zk)) or ctx.violations, "no zero-knowledge case")
    ctx.validate("ZkTrace", zk, what="zero-knowledge of create_proof")
    g.full(ctx, ['blind'], "entropy of the blinding values")
