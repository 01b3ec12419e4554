import wordcommon as w


def run(ctx):
    d = ctx.deep
    w.check(ctx, "shift", w.programs(ctx, "shift", 40), "bls")
    w.check(ctx, "const", w.programs(ctx, "const", 2), "bls,gold" if d else "gold")
    w.check(ctx, "mixed", w.programs(ctx, "mixed", 4, sim=600 if d else 80, limit=3000 if d else 250), "bls,gold", runs=16 if d else 8)
    w.check(ctx, "mixed8", w.programs(ctx, "mixed", 8, sim=200 if d else 15, limit=600 if d else 50), "bls,gold", runs=16 if d else 8)
