import json, os, random, vt, g16common as g


def programs(ctx, cfg, sim=None, limit=None):
    kw = dict(simulate="num=%d" % sim, depth=42) if sim else {}
    r = ctx.design("TcsGen", "TcsGen_%s.cfg" % cfg, tag="-" + cfg, timeout=900, workers=1 if sim else 8, **kw)
    out = sorted({json.dumps(p) for p in vt.printed(r["out"])})
    ctx.need(len(out) > 100, "too few histories")
    if limit and len(out) > limit:
        # the longest ones and a sample of the others
        out.sort(key=len)
        out = out[-limit // 3:] + random.Random(ctx.seed).sample(out[:-limit // 3], limit - limit // 3)
    return [json.loads(p) for p in out]


def check(ctx, name, progs, nh, parts=4):
    exe = ctx.build(["tcs"])["tcs"]
    f = os.path.join(ctx.work, name + ".progs")
    vt.dump(f, progs)
    tr = g.concat(ctx, name + ".ndjson", g.runs(ctx, exe, [("%s%d" % (name, i), ["run", f, nh, i, parts], 1) for i in range(parts)]))
    rows = vt.lines(tr)
    ctx.sample_lines(tr, 1)
    ev = [e for r in rows for e in r["log"]]
    c = ctx.cov.setdefault("histories", {})[name] = {
        "histories": len(progs), "runs": len(rows), "calls": len(ev), "refused": sum(e["r"] for e in ev),
        "unsatisfied": sum(1 for e in ev if e.get("bad")), "hash_variants": sum(len(r["vars"]) for r in rows)}
    ctx.need(c["refused"] > 20 and c["unsatisfied"] > 20 and c["hash_variants"] > 20, "coverage %s" % c)
    ctx.validate("TcsTrace", tr, what="test constraint system (%s)" % name, tag="-" + name, timeout=3000)


def run(ctx):
    d = ctx.deep
    check(ctx, "small", programs(ctx, "small3" if d else "small2"), 1)
    check(ctx, "sim", programs(ctx, "sim40", sim=3000 if d else 250, limit=30000 if d else 4000), 4)
