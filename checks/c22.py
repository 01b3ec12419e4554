import os, random, vt, g16common as g


def run(ctx):
    exe = ctx.build(["ser"])["ser"]
    rows = vt.printed(ctx.design("SerialGen", timeout=900)["out"])
    if ctx.deep:
        rows += vt.printed(ctx.design("SerialGen", "SerialGenDeep.cfg", timeout=2400, tag="-deep", heap="16g")["out"])
    rnd = random.Random(ctx.seed)
    base = [r for r in rows if r["edit"] == "none"]
    rest = [r for r in rows if r["edit"] != "none"]
    ctx.need(len(rest) > 15000, "inputs")
    if not ctx.deep:
        small = [r for r in rest if r["kind"] != "params"]
        big = [r for r in rest if r["kind"] == "params"]
        base = [r for r in base if r["kind"] != "params"] + rnd.sample([r for r in base if r["kind"] == "params"], 12)
        rest = small + rnd.sample(big, 5000)
    elif len(rest) > 120000:
        rest = rnd.sample(rest, 120000)
    p = os.path.join(ctx.work, "inputs.ndjson")
    vt.dump(p, base + rest)
    ctx.cov["inputs"] = len(base) + len(rest)
    files = g.runs(ctx, exe, [("read", ["read", p], 2), ("bls", ["bls"], 4), ("many", ["many"], 1)])
    tr = g.concat(ctx, "all.ndjson", files)
    ctx.sample_lines(files[0], 1)
    ctx.sample_lines(files[1], 1)
    ctx.validate("SerialTrace", tr, what="reading and writing", timeout=2400)
