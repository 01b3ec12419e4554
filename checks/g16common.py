"""What C01-C04 share: circuit programs made by CircuitGen, runs of the real code on them."""
import os, random
from concurrent.futures import ThreadPoolExecutor
import vt


def programs(ctx, sim_num):
    """All small programs (exhaustively) and simulated larger ones, as ndjson files."""
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(ctx.design, "CircuitGen", "CircuitGenDeep.cfg" if ctx.deep else "CircuitGenAll.cfg", workers=1, tag="-all")
        fs = ex.submit(ctx.design, "CircuitGen", "CircuitGenSim.cfg", workers=1, tag="-sim", simulate="num=%d" % sim_num, depth=40)
        a, s = vt.printed(fa.result()["out"]), vt.printed(fs.result()["out"])
    rnd = random.Random(ctx.seed)
    if len(a) > 20000:
        a = rnd.sample(a, 20000)
    elif not ctx.deep and len(a) > 700:
        small = [x for x in a if len(x["ops"]) <= 2]
        rest = [x for x in a if len(x["ops"]) > 2]
        a = small + rnd.sample(rest, 700 - len(small))
    ctx.need(len(a) > 500 and len(s) > sim_num // 3, "too few programs %d %d" % (len(a), len(s)))
    path = os.path.join(ctx.work, "progs.ndjson")
    vt.dump(path, a + s)
    ctx.cov["programs_exhaustive"] = len(a)
    ctx.cov["programs_simulated"] = len(s)
    return path


def runs(ctx, exe, jobs):
    """jobs: (name, args, threads); runs them side by side; returns the trace files."""
    def one(j):
        name, args, th = j
        out = os.path.join(ctx.work, name + ".ndjson")
        full = [args[0], out] + args[1:]
        ok = ctx.harness(exe, full, env={"RAYON_NUM_THREADS": str(th)}, timeout=240 if not ctx.deep else 1500,
                         what="%s %s with %s threads" % (os.path.basename(exe), name, th))
        return out if ok else None
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, jobs))
    if any(r is None for r in res):
        raise vt.Stop()
    return res


def concat(ctx, name, files):
    path = os.path.join(ctx.work, name)
    with open(path, "w") as o:
        for f in files:
            with open(f) as i:
                o.write(i.read())
    return path


def full(ctx, modes, what):
    """A field of real size (FullTrace)."""
    exe = ctx.build(["full"])["full"]
    st = ctx.build(["full"], mc=False)["full"]
    files = runs(ctx, exe, [("full_%s%d" % (m, th), [m], th) for m in modes for th in (3, 8)])
    files += runs(ctx, st, [("full_%s_st" % m, [m], 1) for m in modes])
    ctx.validate("FullTrace", concat(ctx, "full.ndjson", files), what=what, timeout=1500)
