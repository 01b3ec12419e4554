import os, random, vt, g16common as g


def traces(ctx, which):
    exe = ctx.build(["dom"])["dom"]
    st = ctx.build(["dom"], mc=False)["dom"]
    a = vt.printed(ctx.design("DomainGen", "DomainGenAll.cfg", workers=1, tag="-all")["out"])
    s = vt.printed(ctx.design("DomainGen", "DomainGenSim.cfg", workers=1, tag="-sim",
                              simulate="num=%d" % (2000 if ctx.deep else 300), depth=40)["out"])
    ctx.need(len(a) > 700 and len(s) > 100, "domain programs")
    rnd = random.Random(ctx.seed)
    rows = a + s
    rnd.shuffle(rows)
    progs = os.path.join(ctx.work, "ops.ndjson")
    vt.dump(progs, rows)
    jobs = [("ops%d" % i, ["ops", progs, str(i), "6"], th) for i, th in enumerate([1, 2, 3, 4, 7, 8])]
    jobs += [("ops16", ["ops", progs, "1", "6"], 16), ("ops33", ["ops", progs, "4", "6"], 33)]
    if which == "C11":
        jobs += [("basis%d" % th, ["basis"], th) for th in ((1, 4, 8, 16) if not ctx.deep else (1, 2, 3, 4, 8, 16))]
        jobs += [("big%d" % th, ["big"], th) for th in ((3, 8, 16) if not ctx.deep else (1, 2, 3, 5, 8, 16))]
    else:
        jobs += [("lim%d" % th, ["lim"], th) for th in (1, 3, 8)]
    files = g.runs(ctx, exe, jobs)
    files += g.runs(ctx, st, [("stops", ["ops", progs, "1", "4"], 1),
                              ("st2", ["basis" if which == "C11" else "lim"], 1)])
    tr = g.concat(ctx, "all.ndjson", files)
    ctx.sample_lines(files[0], 2)
    return tr


def spots(ctx, which):
    """Large domains, at sampled places."""
    exe = ctx.build(["dom"])["dom"]
    st = ctx.build(["dom"], mc=False)["dom"]
    jobs = [("spot%d" % th, ["spot", which], th) for th in ((3, 8) if not ctx.deep else (1, 2, 3, 5, 8, 16))]
    files = g.runs(ctx, exe, jobs) + g.runs(ctx, st, [("spotst", ["spot", which], 1)])
    tr = g.concat(ctx, "spots.ndjson", files)
    ctx.validate("DomainSpot", tr, what="large domains", timeout=2400, heap="16g")
