"""Gadget programs: generated by GadgetGen.tla, run on the real gadgets, checked by
SatTrace.tla (all assignments) and RunTrace.tla (all recorded syntheses)."""
import os, random, vt, g16common as g


def programs(ctx, fam, n, sim=None, limit=None, depth=None):
    """Programs of a family: all of them, or simulated ones."""
    kw = dict(simulate="num=%d" % sim, depth=depth or n + 3) if sim else {}
    r = ctx.design("GadgetGen", "GadgetGen_%s%d.cfg" % (fam, n), tag="-%s%d" % (fam, n), timeout=900, **kw)
    seen, out = set(), []
    import json
    for p in vt.printed(r["out"]):
        s = json.dumps(p)
        if s not in seen:
            seen.add(s)
            out.append(p)
    out.sort(key=json.dumps)
    ctx.need(len(out) > 0, "no programs of family %s%d" % (fam, n))
    if limit and len(out) > limit:
        out = random.Random(ctx.seed).sample(out, limit)
    return out


def record(ctx, name, progs, primes, maxruns=64, parts=8, g16=False):
    exe = ctx.build(["gad"])["gad"]
    f = os.path.join(ctx.work, name + ".progs")
    vt.dump(f, progs)
    jobs = [("%s%d" % (name, i), ["run", f, ",".join(map(str, primes)), str(maxruns), str(i), str(parts)] + (["g16"] if g16 else []), 2)
            for i in range(parts)]
    files = g.runs(ctx, exe, jobs)
    return g.concat(ctx, name + ".ndjson", files)


def check(ctx, name, progs, primes, sat=True, kind="V", **kw):
    tr = record(ctx, name, progs, primes, **kw)
    ctx.sample_lines(tr, 1)
    rows = vt.lines(tr)
    c = ctx.cov.setdefault("programs", {})
    c[name] = {"programs": len(progs), "primes": primes, "systems": len(rows),
               "constraints": sum(len(r.get("cons", [])) for r in rows),
               "runs": sum(len(r.get("runs", [])) for r in rows),
               "runs_missing": sum(1 for r in rows for q in r.get("runs", []) if not q["full"]),
               "proofs": sum(len(r.get("e2e", [])) for r in rows),
               "injected": sum(len(r.get("inj", [])) for r in rows)}
    ok = ctx.validate("RunTrace", tr, "RunTrace_%s.cfg" % kind, what="syntheses of %s gadgets" % name, tag="-" + name, timeout=3000, count=c[name]["runs"])
    if sat:
        ok = ctx.validate("SatTrace", tr, what="assignments of %s gadgets" % name, tag="-" + name, timeout=3000) and ok
    return tr
