import json, os, random, vt, g16common as g


def programs(ctx, cfg, sim=None, limit=None):
    kw = dict(simulate="num=%d" % sim, depth=12) if sim else {}
    r = ctx.design("LinGen", "LinGen_%s.cfg" % cfg, tag="-" + cfg, timeout=900, workers=1 if sim else 8, **kw)
    out = sorted({json.dumps(p) for p in vt.printed(r["out"])})
    ctx.need(len(out) > 100, "too few histories")
    if limit and len(out) > limit:
        out = random.Random(ctx.seed).sample(out, limit)
    return [json.loads(p) for p in out]


def check(ctx, name, progs, fields, enf, g16, parts=4):
    exe = ctx.build(["lin"])["lin"]
    f = os.path.join(ctx.work, name + ".progs")
    vt.dump(f, progs)
    tr = g.concat(ctx, name + ".ndjson", g.runs(ctx, exe, [("%s%d" % (name, i), ["run", f, fields, enf, g16, i, parts], 1) for i in range(parts)]))
    rows = vt.lines(tr)
    ctx.sample_lines(tr, 1)
    enfs = [e for r in rows for e in r["enf"]]
    gs = [x for r in rows for x in r["g16"]]
    ctx.cov.setdefault("histories", {})[name] = {
        "histories": len(progs), "fields": fields, "constraints": len(enfs), "satisfied": sum(e["sat"] for e in enfs),
        "hashed": sum(e["hashed"] for e in enfs), "circuits": len(gs), "proofs": sum(len(x["proofs"]) for x in gs),
        "unconstrained": sum(x["err"] == "UnconstrainedVariable" for x in gs)}
    ctx.validate("LinTrace", tr, what="linear combinations (%s)" % name, tag="-" + name, timeout=3000)
    return enfs, gs


def run(ctx):
    d = ctx.deep
    check(ctx, "pairs1", programs(ctx, "pairs1"), "13,40961,0", 6, 2)
    check(ctx, "pairs2", programs(ctx, "pairs2", limit=None if d else 6000), "13,0" if d else "0", 2, 0)
    e, x = check(ctx, "sim", programs(ctx, "sim9", sim=12000 if d else 1200), "13,40961,0", 6, 2)
    ctx.need(any(v["sat"] for v in e) and any(not v["sat"] for v in e), "constraints of both outcomes")
    ctx.need(any(v["err"] == "" for v in x) and any(v["err"] != "" for v in x), "parameters of both outcomes")
