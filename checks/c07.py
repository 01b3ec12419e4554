import os, random, vt, g16common as g


def run(ctx):
    exe = ctx.build(["pool"])["pool"]
    st = ctx.build(["pool"], mc=False)["pool"]
    for n in ("A", "B", "C", "D") if ctx.deep else ("A", "D"):
        ctx.design("Worker", "Worker%s.cfg" % n, tag=n, timeout=2400, heap="12g")
    a = vt.printed(ctx.design("WorkerGen", "WorkerGenAll.cfg", workers=1, tag="-all")["out"])
    s = vt.printed(ctx.design("WorkerGen", "WorkerGenSim.cfg", workers=1, tag="-sim",
                              simulate="num=%d" % (600 if ctx.deep else 100), depth=120)["out"])
    rnd = random.Random(ctx.seed)
    if not ctx.deep:
        a = rnd.sample(a, 900)
    ctx.need(len(a) > 800 and len(s) > 50, "histories")
    progs = os.path.join(ctx.work, "hist.ndjson")
    rows = a + s
    rnd.shuffle(rows)
    vt.dump(progs, rows)
    jobs = [("h%d" % i, ["hist", progs, str(i), "5"], th) for i, th in enumerate([1, 2, 3, 5, 8])]
    jobs += [("h16", ["hist", progs, "1", "9"], 16)]
    jobs += [("flood%d" % th, ["flood"], th) for th in (1, 2, 3, 8)]
    jobs += [("in%d" % th, ["inside"], th) for th in (1, 2, 4)]
    files = g.runs(ctx, exe, jobs)
    files += g.runs(ctx, st, [("sth", ["hist", progs, "0", "3"], 1), ("stf", ["flood"], 1), ("sti", ["inside"], 1)])
    tr = g.concat(ctx, "all.ndjson", files)
    ctx.sample_lines(files[0], 2)
    blocked = sum(1 for r in vt.lines(tr) for e in r["ev"] if e["e"] == "held")
    ctx.cov["held_up_submissions"] = blocked
    ctx.validate("WorkerTrace", tr, what="background jobs", timeout=1500)
    ctx.need(blocked > 4 or ctx.violations, "no backlog was built up")
