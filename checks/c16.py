import vt, gadcommon as gc, g16common as g


def run(ctx):
    ps = gc.programs(ctx, "bits", 1)
    small = [5, 7, 13, 31, 47, 61, 97, 113, 127, 193, 241, 251, 257]
    gc.check(ctx, "bits1", ps, small, maxruns=260)
    gc.check(ctx, "bits2", gc.programs(ctx, "bits", 2), small if ctx.deep else [5, 13, 31, 61], maxruns=60)
    gc.check(ctx, "bits1b", ps, [1031, 40961] if ctx.deep else [1031], maxruns=60)
    gc.check(ctx, "ubits", [[["ubits"]], [["bit"], ["ubits"]]][:1], [5, 40961], sat=False)
    if not ctx.violations:
        large(ctx)


def large(ctx):
    """Large fields: every way in which a string of bits first departs from r - 1."""
    ctx.design("CanonMC", env={})
    exe = ctx.build(["canon"])["canon"]
    tr = g.concat(ctx, "canon.ndjson", g.runs(ctx, exe, [("canon%d" % i, ["run", i], 1) for i in range(9)]))
    rows = vt.lines(tr)
    ev = [e for r in rows for e in r["rows"]]
    ctx.cov["large_fields"] = {"fields": sorted({r["field"] for r in rows}), "honest": sum(e["k"] == "run" for e in ev),
                               "admitted": sum(e["k"] == "try" and e["sat"] == 1 for e in ev),
                               "refuted": sum(e["k"] == "try" and e["sat"] == 0 for e in ev),
                               "undecided": sum(e["k"] == "try" and e["sat"] == -1 for e in ev)}
    ctx.validate("CanonTrace", tr, what="decompositions over large fields", count=len(ev), timeout=1500)
