import os, random, vt, g16common as g


def small(ctx):
    rows = vt.printed(ctx.design("MultiexpMC", "MultiexpMC.cfg", workers=4)["out"])
    rows += vt.printed(ctx.design("MultiexpMC", "MultiexpMC3.cfg", workers=8, tag="-3")["out"])
    if ctx.deep:
        rows += vt.printed(ctx.design("MultiexpMC", "MultiexpMCDeep.cfg", workers=8, tag="-deep", timeout=1500)["out"])
    ctx.need(len(rows) > 3000, "small cases")
    ctx.cov["small_cases"] = len(rows)
    p = os.path.join(ctx.work, "small.ndjson")
    vt.dump(p, rows)
    return p
