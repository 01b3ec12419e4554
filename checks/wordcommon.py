"""Programs over 32-bit words: WordGen.tla generates them, the real gadgets run them,
WordTrace.tla checks the recorded values and CertTrace.tla that they are forced."""
import json, os, random, vt, g16common as g


def programs(ctx, fam, n, sim=None, limit=None):
    kw = dict(simulate="num=%d" % sim, depth=n + 2) if sim else {}
    r = ctx.design("WordGen", "WordGen_%s%d.cfg" % (fam, n), tag="-%s%d" % (fam, n), timeout=900, **kw)
    out = sorted({json.dumps(p) for p in vt.printed(r["out"])})
    ctx.need(len(out) > 0, "no word programs")
    if limit and len(out) > limit:
        out = random.Random(ctx.seed).sample(out, limit)
    return [json.loads(p) for p in out]


def check(ctx, name, progs, fields, kind="V", runs=6, cert=True, parts=8):
    exe = ctx.build(["word"])["word"]
    f = os.path.join(ctx.work, name + ".progs")
    vt.dump(f, progs)
    cf = [os.path.join(ctx.work, "%s%d.certs" % (name, i)) for i in range(parts)]
    jobs = [("%s%d" % (name, i), ["run", f, cf[i], fields, runs, i, parts], 2) for i in range(parts)]
    tr = g.concat(ctx, name + ".ndjson", g.runs(ctx, exe, jobs))
    rows = vt.lines(tr)
    ctx.sample_lines(tr, 1)
    c = ctx.cov.setdefault("word_programs", {})
    c[name] = {"programs": len(progs), "fields": fields, "cases": len(rows), "runs": sum(len(r["runs"]) for r in rows),
               "constraints": sum(r["ncons"] for r in rows)}
    ok = ctx.validate("WordTrace", tr, "WordTrace_%s.cfg" % kind, what="syntheses of word programs (%s)" % name,
                      tag="-" + name, timeout=3000, count=c[name]["runs"])
    if cert and ok:
        ce = g.concat(ctx, name + ".certs.ndjson", cf)
        cr = vt.lines(ce)
        c[name]["certificates"] = len(cr)
        c[name]["certificate_steps"] = sum(len(x["steps"]) for x in cr)
        ctx.validate("CertTrace", ce, what="word programs (%s): the constraints determine all values" % name, tag="-" + name, timeout=3000)
