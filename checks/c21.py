import hashcommon as h


def run(ctx):
    h.vectors(ctx, "b2s")
    h.check(ctx, "consts", h.cases(ctx, "consts", "b2s"), "gold")
    h.long(ctx, "b2s")
    h.check(ctx, "wires", h.cases(ctx, "wires", "b2s"), "bls,gold" if ctx.deep else "gold", runs=5)
    h.check(ctx, "cert", h.cases(ctx, "cert", "b2s"), "bls", runs=3)
