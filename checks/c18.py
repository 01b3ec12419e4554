import os, vt, gadcommon as gc, g16common as g


def packing(ctx):
    """Outside and inside packing and equalities, also over the real field."""
    exe = ctx.build(["pack"])["pack"]
    tr = g.concat(ctx, "packing.ndjson", g.runs(ctx, exe, [("packing0", ["run"], 1)]))
    rows = vt.lines(tr)
    ctx.sample_lines(tr, 1)
    ev = [e for r in rows for e in r["ev"]]
    c = ctx.cov["packing"] = {k: sum(1 for e in ev if e["k"] == k) for k in ("pack", "bytes", "meq")}
    c["meq_false"] = sum(1 for e in ev if e["k"] == "meq" and not e["sat"])
    ctx.need(all(r["panic"] for r in rows) or min(c.values()) > 50, "coverage %s" % c)
    ctx.validate("PackTrace", tr, what="packing and equalities", count=len(ev), timeout=1500)


def run(ctx):
    # the accumulator: exact with the capacity as its limit, and (so that the model is known
    # to be able to fail) not with a larger one
    for p in [5, 13, 31] + ([47] if ctx.deep else []):
        ctx.design("MultiEqMC", "MultiEqMC_%d.cfg" % p, tag="-%d" % p, timeout=900)
    r = ctx.tlc("MultiEqMC", "MultiEqMC_beyond.cfg", tag="-beyond")
    ctx.need(r["status"] == "violated", "MultiEqMC cannot fail")
    packing(ctx)
    gc.check(ctx, "meq", gc.programs(ctx, "meq", 4, sim=3000 if ctx.deep else 600, limit=10000 if ctx.deep else 700, depth=7), [193, 47, 40961])
    gc.check(ctx, "pack8", gc.programs(ctx, "pack", 8, sim=1500 if ctx.deep else 200, limit=4000 if ctx.deep else 300, depth=10), [5, 7, 47, 193])
    gc.check(ctx, "pack34", gc.programs(ctx, "pack", 34, sim=600 if ctx.deep else 60, limit=2000 if ctx.deep else 150, depth=36), [193, 40961])
