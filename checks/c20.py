import hashcommon as h


def run(ctx):
    h.vectors(ctx, "sha")
    h.check(ctx, "consts", h.cases(ctx, "consts", "sha"), "gold")
    h.long(ctx, "sha")
    h.check(ctx, "wires", h.cases(ctx, "wires", "sha"), "bls,gold" if ctx.deep else "gold", runs=5)
    h.check(ctx, "cert", h.cases(ctx, "cert", "sha"), "bls", runs=3)
