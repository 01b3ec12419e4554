import gadcommon as gc


def run(ctx):
    ps = gc.programs(ctx, "look", 1)
    gc.check(ctx, "look", ps, [5, 13, 251, 40961])
    if ctx.deep:
        gc.check(ctx, "look7", ps * 8, [7, 1031, 40961])
