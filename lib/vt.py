"""Shared machinery of the checks: build the harness from /repo, run it, run TLC,
turn the outcome into exit codes, VIOLATION lines and evidence files."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    pass


class Stop(Exception):
    """Stop after a violation that makes going on pointless."""


def cargo_env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="1.70.0",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
    )
    for k in ("RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.deep = self.tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.violations = []
        self.models = []
        self.assumptions = []
        self.notes = []

    # ---- harness ----
    def build(self, bins, mc=True):
        tgt = os.path.join(BUILD, "mc" if mc else "st")
        cmd = ["cargo", "build", "--offline", "--quiet"]
        for b in bins:
            cmd += ["--bin", b]
        if not mc:
            cmd.append("--no-default-features")
        e = cargo_env()
        e["CARGO_TARGET_DIR"] = tgt
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("harness build failed:\n" + p.stdout[-4000:])
        return {b: os.path.join(tgt, "debug", b) for b in bins}

    def harness(self, exe, args, env=None, timeout=300, what="", mem_gb=None):
        """Runs the code under test. Returns True if it ran to the end. A panic that
        escapes, an abort or a hang is the code's doing, hence a violation."""
        e = dict(os.environ)
        e.update(VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, RUST_BACKTRACE="0")
        e.update(env or {})
        pre = None
        if mem_gb:
            import resource
            lim = int(mem_gb * (1 << 30))

            def pre():
                resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        try:
            p = subprocess.run([exe] + [str(a) for a in args], env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors="replace", preexec_fn=pre, cwd=self.work)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, out, err = "hang", "", ""
        if os.environ.get("VT_TIME"):
            print("  [%.1fs] harness %s" % (time.time() - self.t0, " ".join(map(str, args[:1] + args[-2:]))), flush=True)
        if rc == 0:
            self.last_stdout = out
            return True
        if rc == 97 or "HARNESS-ERROR" in err or "'harness:" in err:
            raise ToolError("harness error: " + (err or out)[-2000:])
        desc = "hung" if rc == "hang" else ("was killed by signal %d" % -rc if rc < 0 else "ended with status %s" % rc)
        self.violation("%s: the process running the code under test %s" % (what or os.path.basename(exe), desc),
                       {"command": [exe] + [str(a) for a in args], "env": env or {}, "stderr": err[-3000:],
                        "stdout": out[-2000:]})
        return False

    # ---- TLC ----
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=600, simulate=None, depth=None,
            deadlock=False, heap="8g", tag="", dfs=False, extra=None):
        """Runs TLC; returns dict(status, states, distinct, out). Raises ToolError when TLC
        itself fails."""
        cfg = cfg or module + ".cfg"
        meta = os.path.join(self.work, "tlc-" + module + tag)
        shutil.rmtree(meta, ignore_errors=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", classpath(), "tlc2.TLC", "-config", cfg, "-metadir", meta,
                "-workers", str(workers), "-nowarning", "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", simulate, "-seed", str(self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd += extra or []
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        with open(os.path.join(self.work, "tlc-%s%s.out" % (module, tag)), "w") as f:
            f.write(out)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            m = re.findall(r"The number of states generated: ([\d,]+)()", out)
        gen = int(m[-1][0].replace(",", "")) if m else 0
        dis = int(m[-1][1].replace(",", "")) if m and m[-1][1] else gen
        if p.returncode == 0:
            st = "ok"
        elif p.returncode in (12, 13) or "is violated" in out and p.returncode < 75:
            st = "violated"
        elif "postcondition" in out.lower() and "violated" in out or "POSTCONDITION" in out and "is violated" in out:
            st = "violated"
        elif p.returncode == 11:
            st = "deadlock"
        elif p.returncode == 10:
            st = "assume"
        else:
            st = "error"
        mod = module + tag
        if os.environ.get("VT_TIME"):
            print("  [%.1fs] %s %s" % (time.time() - self.t0, mod, st), flush=True)
        self.models.append({"model": mod, "generated": gen, "distinct": dis, "status": st})
        self.states += dis
        self.transitions += gen
        r = dict(status=st, generated=gen, distinct=dis, out=out, rc=p.returncode)
        if st in ("error", "assume"):
            raise ToolError("TLC failed on %s (rc %s):\n%s" % (mod, p.returncode, tail(out)))
        return r

    def design(self, module, cfg=None, **kw):
        """A design-level model: a violation there is our error, not the code's."""
        r = self.tlc(module, cfg, **kw)
        if r["status"] != "ok":
            raise ToolError("design model %s: %s\n%s" % (module, r["status"], tail(r["out"])))
        return r

    def validate(self, module, trace, cfg=None, what="", env=None, tag="", count=None, **kw):
        """Trace validation. Each line of the trace is one recorded behaviour; the module
        walks it with variables t (line) and l (event) and an invariant that fails on the
        first event which the specification does not allow."""
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise ToolError("empty trace " + trace)
        e = {"TRACE": trace}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, tag=tag, **kw)
        if r["status"] == "ok":
            self.traces += n if count is None else count
            return True
        t = last_int(r["out"], "t")
        l = last_int(r["out"], "l")
        case = None
        if t:
            with open(trace) as f:
                for i, line in enumerate(f, 1):
                    if i == t:
                        case = json.loads(line)
                        break
        inv = re.findall(r"(?:Invariant|property|Postcondition|POSTCONDITION) (\S+)? ?(?:is|of).*", r["out"])
        self.violation("%s: recorded behaviour %s, event %s is not one of the specification %s"
                       % (what or module, t, l, module),
                       {"module": module, "case_index": t, "event": l, "case": case, "tlc": tail(r["out"], 6000)})
        return False

    # ---- results ----
    def sample(self, s, limit=5):
        if len(self.samples) < limit:
            t = s if isinstance(s, str) else json.dumps(s)
            self.samples.append(t if len(t) < 1500 else t[:1500] + "...")

    def sample_lines(self, path, k=2, limit=6):
        with open(path) as f:
            for i, line in enumerate(f):
                if i >= k:
                    break
                self.sample(line.strip(), limit)

    def violation(self, msg, detail):
        i = len(self.violations) + 1
        path = os.path.join(self.replays, "%s-%d.json" % (self.prop, i))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": msg, "seed": self.seed, "tier": self.tier, "detail": detail},
                      f, indent=1, default=str)
        self.violations.append((msg, path))

    def need(self, cond, msg):
        """Vacuity guard: what the run was meant to exercise was exercised."""
        if not cond:
            raise ToolError("vacuity: " + msg)

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["(none)"])
        cov["models"] = self.models
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True) if not self.violations and not os.environ.get("VT_KEEP") else None
        for msg, path in self.violations:
            print("  " + msg)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1 if self.violations else 0


def classpath():
    d = os.path.dirname(TLA_JAR)
    jars = [os.path.join(d, j) for j in os.listdir(d) if j.endswith(".jar")]
    jars.sort(key=lambda j: 0 if j == TLA_JAR else 1)
    return ":".join(jars)


def tail(s, n=3000):
    return s if len(s) <= n else s[:n // 3] + "\n...\n" + s[-(2 * n) // 3:]


def last_int(out, var):
    m = re.findall(r"(?:/\\ )?\b%s = (-?\d+)" % var, out)
    return int(m[-1]) if m else None


def lines(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def dump(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def printed(out):
    """The JSON values that a model printed with PrintT(ToJson(..)), one per line."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"') and line.endswith('"') and len(line) > 2:
            try:
                res.append(json.loads(json.loads(line)))
            except ValueError:
                pass
    return res
