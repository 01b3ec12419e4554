import gadcommon as gc


def run(ctx):
    gc.check(ctx, "bool1", gc.programs(ctx, "bool", 1), [5, 40961])
    gc.check(ctx, "bool3", gc.programs(ctx, "bool", 3, sim=3000 if ctx.deep else 300, limit=20000 if ctx.deep else 900), [7, 31])
    if ctx.deep:
        gc.check(ctx, "bool2", gc.programs(ctx, "bool", 2, limit=20000), [5])
