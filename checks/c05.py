import os, random, vt, g16common as g


def run(ctx):
    exe = ctx.build(["fault"])["fault"]
    st = ctx.build(["fault"], mc=False)["fault"]
    plans = vt.printed(ctx.design("FaultGen", workers=4)["out"])
    rnd = random.Random(ctx.seed)
    single = [p for p in plans if len(p) < 2]
    double = [p for p in plans if len(p) == 2]
    ctx.need(len(single) > 100 and len(double) > 4000, "plans")
    rows = single * (3 if not ctx.deep else 20) + (rnd.sample(double, 600) if not ctx.deep else double)
    rnd.shuffle(rows)
    progs = os.path.join(ctx.work, "plans.ndjson")
    vt.dump(progs, rows)
    ctx.cov["fault_plans"] = {"single": len(single), "double": len(double), "run": len(rows)}
    ths = (1, 2, 3, 8)
    files = g.runs(ctx, exe, [("f%d" % t, ["run", progs, str(i), "5"], t) for i, t in enumerate(ths)])
    files += g.runs(ctx, st, [("st", ["run", progs, "4", "5"], 1)])
    tr = g.concat(ctx, "all.ndjson", files)
    res = {}
    for r in vt.lines(tr):
        res[r["res"]] = res.get(r["res"], 0) + 1
    ctx.cov["results"] = res
    ctx.need(ctx.violations or res.get("ok", 0) > 50 or "panic" in res or "hang" in res, "no case without effect")
    ctx.sample_lines(tr, 2)
    ctx.validate("ProverTrace", tr, what="proof creation with faulty parameters", timeout=2400)
