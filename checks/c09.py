import vt, g16common as g, mexpcommon


def run(ctx):
    exe = ctx.build(["mexp"])["mexp"]
    st = ctx.build(["mexp"], mc=False)["mexp"]
    p = mexpcommon.small(ctx)
    jobs = [("v%d" % th, ["values"], th) for th in ((1, 3, 8) if not ctx.deep else (1, 2, 3, 5, 8, 16))]
    jobs += [("g%d" % i, ["gen", p, str(i), "4"], th) for i, th in enumerate((1, 2, 5, 8))]
    jobs += [("wide", ["wide"], 8)]
    files = g.runs(ctx, exe, jobs)
    files += g.runs(ctx, st, [("stv", ["values"], 1), ("stg", ["gen", p, "0", "4"], 1)])
    tr = g.concat(ctx, "all.ndjson", files)
    ctx.sample_lines(files[0], 2)
    ctx.validate("MultiexpTrace", tr, "MultiexpTrace_C09.cfg", what="multiexponentiation", timeout=2400)
