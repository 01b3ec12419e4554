import gadcommon as gc, wordcommon as w, hashcommon as h


def run(ctx):
    d = ctx.deep
    gc.check(ctx, "bool", gc.programs(ctx, "bool", 3, sim=2000 if d else 200, limit=4000 if d else 300), [40961, 7], kind="S", sat=False, maxruns=24, g16=True)
    gc.check(ctx, "bool1", gc.programs(ctx, "bool", 1), [40961], kind="S", sat=False, maxruns=16, g16=True)
    gc.check(ctx, "num", gc.programs(ctx, "num", 3, sim=2000 if d else 200, limit=4000 if d else 250), [40961, 13], kind="S", sat=False, maxruns=40, g16=True)
    gc.check(ctx, "num1", gc.programs(ctx, "num", 1, limit=None if d else 80), [40961], kind="S", sat=False, maxruns=40, g16=True)
    gc.check(ctx, "bits", gc.programs(ctx, "bits", 2), [5, 13, 40961], kind="S", sat=False, maxruns=40, g16=True)
    gc.check(ctx, "look", gc.programs(ctx, "look", 1, limit=None if d else 150), [40961], kind="S", sat=False, maxruns=8, g16=True)
    gc.check(ctx, "pack", gc.programs(ctx, "pack", 34, sim=300 if d else 40, limit=400 if d else 60, depth=36), [40961, 193], kind="S", sat=False, maxruns=8, g16=True)
    gc.check(ctx, "meq", gc.programs(ctx, "meq", 4, sim=1000 if d else 150, limit=2000 if d else 200, depth=7), [40961, 193], kind="S", sat=False, maxruns=16, g16=True)
    w.check(ctx, "wconst", w.programs(ctx, "const", 2), "gold", kind="S", cert=False, runs=3)
    w.check(ctx, "wshift", w.programs(ctx, "shift", 40, limit=None if d else 80), "gold", kind="S", cert=False, runs=3)
    w.check(ctx, "wmixed", w.programs(ctx, "mixed", 4, sim=200 if d else 25, limit=1000 if d else 100), "bls,gold", kind="S", cert=False, runs=4)
    for alg in ("sha", "b2s"):
        h.check(ctx, "hash-" + alg, h.cases(ctx, "few", alg), "gold", kind="S", runs=2, miss=4)
