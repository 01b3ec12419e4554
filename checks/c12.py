import vt, domcommon


def run(ctx):
    ctx.design("FftMC", "FftMC_97.cfg", tag="_97")
    tr = domcommon.traces(ctx, "C12")
    ctx.validate("DomainTrace", tr, "DomainTrace_C12.cfg", what="domain operations", timeout=2400)
    domcommon.spots(ctx, "C12")
