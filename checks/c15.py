import gadcommon as gc


def run(ctx):
    gc.check(ctx, "num1", gc.programs(ctx, "num", 1), [5, 13], maxruns=400)
    gc.check(ctx, "num1b", gc.programs(ctx, "num", 1, limit=None if ctx.deep else 60), [1031, 40961], maxruns=100)
    gc.check(ctx, "num3", gc.programs(ctx, "num", 3, sim=3000 if ctx.deep else 300, limit=6000 if ctx.deep else 400), [5, 251] if ctx.deep else [5])
