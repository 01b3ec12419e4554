"""Hash circuits: HashGen.tla generates the inputs, the real circuits run on them,
HashTrace.tla hashes the messages round by round and compares, CertTrace.tla checks that
the digest is forced by the input bits."""
import hashlib, json, os, random, vt, g16common as g


def vectors(ctx, alg):
    """Digests of an independent implementation: the specification must be the standard."""
    rnd = random.Random(ctx.seed)
    rows = []
    for n in list(range(0, 12)) + [55, 56, 63, 64, 65, 119, 120, 127, 128, 129, 200]:
        m = bytes(rnd.randrange(256) for _ in range(n))
        pers = bytes(rnd.randrange(256) for _ in range(8)) if n % 3 else b"\0" * 8
        d = hashlib.sha256(m).digest() if alg == "sha" else hashlib.blake2s(m, person=pers).digest()
        bits = lambda b: [(x >> (7 - i if alg == "sha" else i)) & 1 for x in b for i in range(8)]
        rows.append({"alg": alg, "code": bits(m), "pers": list(pers) if alg == "b2s" else [], "panic": 0, "err": "", "ns": True, "ncons": 0,
                     "runs": [{"free": [], "full": True, "len": False, "err": "", "same": True, "sat": 1, "tn": 0, "got": bits(d), "worth": bits(d)}]})
    if alg == "sha":
        for m, d in ((b"abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"), (b"", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")):
            assert hashlib.sha256(m).hexdigest() == d
    else:
        assert hashlib.blake2s(b"abc").hexdigest() == "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982"
    f = os.path.join(ctx.work, "vectors.ndjson")
    vt.dump(f, rows)
    ctx.design("HashTrace", "HashTrace_V.cfg", tag="-vectors", env={"TRACE": f})
    ctx.cov["standard_vectors"] = len(rows)


def cases(ctx, fam, alg):
    r = ctx.design("HashGen", "HashGen_%s_%s%s.cfg" % (fam, alg, "Deep" if ctx.deep else ""), tag="-%s-%s" % (fam, alg), workers=1,
                   extra=["-seed", str(ctx.seed), "-fp", "0"])
    out = sorted({json.dumps(p) for p in vt.printed(r["out"])})
    ctx.need(len(out) > 0, "no hash inputs")
    random.Random(ctx.seed).shuffle(out)
    return [json.loads(p) for p in out]


def check(ctx, name, cs, fields, kind="V", runs=3, miss=0, parts=8):
    if ctx.violations:
        return
    exe = ctx.build(["hash"])["hash"]
    f = os.path.join(ctx.work, name + ".cases")
    vt.dump(f, cs)
    cf = [os.path.join(ctx.work, "%s%d.certs" % (name, i)) for i in range(parts)]
    jobs = [("%s%d" % (name, i), ["run", f, cf[i], fields, runs, miss, i, parts], 2) for i in range(parts)]
    tr = g.concat(ctx, name + ".ndjson", g.runs(ctx, exe, jobs))
    rows = vt.lines(tr)
    ctx.sample_lines(tr, 1)
    c = ctx.cov.setdefault("hash_circuits", {})
    c[name] = {"inputs": len(cs), "fields": fields, "runs": sum(len(r["runs"]) for r in rows), "constraints": sum(r["ncons"] for r in rows),
               "message_bits": sorted({len(r["code"]) for r in rows})}
    ok = ctx.validate("HashTrace", tr, "HashTrace_%s.cfg" % kind, what="hash circuits (%s)" % name, tag="-" + name, timeout=3000, count=c[name]["runs"])
    if ok and any(x[4] for x in cs):
        ce = g.concat(ctx, name + ".certs.ndjson", cf)
        cr = vt.lines(ce)
        c[name]["certificates"] = len(cr)
        c[name]["certificate_steps"] = sum(len(x["steps"]) for x in cr)
        ctx.validate("CertTrace", ce, what="hash circuits (%s): the constraints determine all values" % name, tag="-" + name, timeout=3000)


def long(ctx, alg):
    """Long constant messages, whose block counters and lengths need more than 16 bits."""
    if ctx.violations:
        return
    exe = ctx.build(["hash"])["hash"]
    sets = ["0,1,55,56,63,64,65,127,128,1000,4096,8191,8192,8193,8300,16383,70000", "65535,65536", "65537,65600", "131072"]
    if ctx.deep:
        sets += ["131073,200000", "262144,262145", "524288", "524353", "1048577"]
    tr = g.concat(ctx, "long.ndjson", g.runs(ctx, exe, [("long%d" % i, ["long", alg, s], 2) for i, s in enumerate(sets)]))
    ctx.cov.setdefault("hash_circuits", {})["long"] = {"message_bytes": ",".join(sets)}
    ctx.validate("HashLong", tr, what="long messages", timeout=3000)
