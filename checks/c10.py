import vt, g16common as g, mexpcommon


def run(ctx):
    exe = ctx.build(["mexp"])["mexp"]
    st = ctx.build(["mexp"], mc=False)["mexp"]
    p = mexpcommon.small(ctx)
    jobs = [("f%d" % th, ["faults"], th) for th in (1, 3, 8)]
    jobs += [("g%d" % i, ["gen", p, str(i), "4"], th) for i, th in enumerate((1, 2, 5, 8))]
    files = g.runs(ctx, exe, jobs)
    files += g.runs(ctx, st, [("stf", ["faults"], 1), ("stg", ["gen", p, "0", "4"], 1)])
    tr = g.concat(ctx, "all.ndjson", files)
    res = {}
    for r in vt.lines(tr):
        res[r["res"]] = res.get(r["res"], 0) + 1
    ctx.cov["results"] = res
    ctx.sample_lines(files[0], 2)
    ctx.validate("MultiexpTrace", tr, "MultiexpTrace_C10.cfg", what="errors of multiexponentiation", timeout=2400)
    h = g.runs(ctx, exe, [("hist", ["hist"], 4)])[0]
    ctx.sample_lines(h, 1)
    ctx.validate("SourceTrace", h, what="sources and density maps", timeout=1500)
