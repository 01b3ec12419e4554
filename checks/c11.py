import vt, domcommon


def run(ctx):
    for n in ("17", "97", "40961"):
        ctx.design("FftMC", "FftMC_%s.cfg" % n, tag="_" + n)
    if ctx.deep:
        ctx.design("FftMC", "FftMCDeep.cfg", tag="_deep", timeout=1500)
    tr = domcommon.traces(ctx, "C11")
    ctx.validate("DomainTrace", tr, "DomainTrace_C11.cfg", what="transforms", timeout=2400)
    domcommon.spots(ctx, "C11")
