"""Shared machinery of the checks: TLC runs, driver runs, verdicts and evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
PYVT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence")


class MachineryError(Exception):
    """The check itself failed (not the code under test)."""


class NonConforming(Exception):
    """A recorded behaviour is not even of the form the trace specification reads: reported as a violation."""


class TLCResult:
    def __init__(self, out, generated, distinct, coverage):
        self.out, self.generated, self.distinct, self.coverage = out, generated, distinct, coverage
        self.lines = [l for l in out.splitlines() if l.startswith("@@")]

    def tagged(self, tag):
        """Values printed by the specification as  PrintT("@@TAG|...")."""
        res, pre = [], "@@" + tag + "|"
        for l in self.out.splitlines():
            l = l.strip()
            if l.startswith('"') and l.endswith('"'):
                l = unquote(l)
            if l.startswith(pre):
                res.append(l[len(pre):])
        return res


def unquote(l):
    """PrintT of a string value prints a TLA+ literal: undo quotes and escapes."""
    s, i, o = l[1:-1], 0, []
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            o.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(s[i + 1], s[i + 1])); i += 2
        else:
            o.append(s[i]); i += 1
    return "".join(o)


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []          # [(clause, text, replay object)]
        self.cov = {}
        self.assumptions = []
        self.models = []
        self.known_hits = []
        self.weak = None         # a tampered record was accepted: the run decides nothing unless it found a violation

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        if self.thorough: return thorough
        k = float(os.environ.get("VERIF_SCALE", "1"))      # development only: smaller samples for mutation screening
        return max(16, int(quick * k)) if k < 1 and type(quick) is int and quick >= 20 else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def path(self, name):
        return os.path.join(self.tmp, name)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers="auto", timeout=600, simulate=None, depth=None,
            seed=None, expect_fail=False, label=None, coverage=False, heap="8g", extra=None, count=True):
        """Run TLC on spec/<module>.tla with spec/<cfg>.cfg. Any TLC error is a machinery error unless
        expect_fail (then the output is returned with .failed set)."""
        cfg = cfg or module
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.tmp, "-cp", JAVA_CP, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
               "-config", os.path.join(SPEC, cfg + ".cfg")]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(seed if seed is not None else self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        if coverage:
            cmd += ["-coverage", "1"]
        if extra:
            cmd += extra
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if simulate is not None:
            ms = re.findall(r"The number of states generated: (\d+)", out)
            gen = int(ms[-1]) if ms else gen
            dis = max(dis, 0)
        r = TLCResult(out, gen, dis, None)
        r.failed = p.returncode != 0
        if r.failed and not expect_fail:
            if module.endswith("Trace") and "The error occurred when TLC was evaluating" in out:
                why = re.findall(r"Error: (.*)", out)
                if os.environ.get("VERIF_KEEP"): print(out[-3000:])
                self.fail("form", "recorded data cannot be read as a behaviour of the specification: " + " / ".join(why)[:300], None)
                raise NonConforming()
            tail = "\n".join([l for l in out.splitlines() if not l.startswith('"@@')][-40:])
            raise MachineryError("TLC failed on %s/%s (rc %d):\n%s" % (module, cfg, p.returncode, tail))
        if count:
            self.states += dis if dis else gen
            self.transitions += gen
        self.models.append({"model": label or cfg, "generated": gen, "distinct": dis,
                            "seconds": round(time.time() - t, 1)})
        return r

    # ---------------------------------------------------------------- drivers
    def driver(self, script, payload, timeout=300, py=PY, tag="drv"):
        """Run harness/<script> in its own process with a JSON payload file; returns its JSON output.
        A crash or hang of the process (code under test) is returned as {"crash": text}."""
        fi = os.path.join(self.tmp, "%s_%s_in.json" % (tag, time.time_ns()))
        fo = fi.replace("_in.json", "_out.json")
        json.dump(payload, open(fi, "w"))
        cache = os.path.join(self.tmp, "pyc")
        e = dict(os.environ, PYTHONPYCACHEPREFIX=cache, VERIF_REPO=REPO,
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
        e["PYTHONPATH"] = HERE + ((":" + REPO) if py == PY else "")
        cmd = [py, "-W", "ignore", os.path.join(HERE, script), fi, fo]
        err = open(fi + ".err", "w+")
        p = subprocess.Popen(cmd, cwd=self.tmp, env=e, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        return (p, fi, fo, err, timeout, time.time())

    def collect(self, h):
        p, fi, fo, err, timeout, t0 = h
        try:
            p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            return {"crash": "timeout after %ds" % timeout, "input": fi}
        err.seek(0)
        txt = err.read()[-3000:]
        err.close()
        if p.returncode == 3:
            raise MachineryError("driver machinery error:\n" + txt)
        if p.returncode != 0 or not os.path.exists(fo):
            return {"crash": "exit %s: %s" % (p.returncode, txt[-1500:]), "input": fi}
        try:
            return json.load(open(fo))
        except ValueError:
            return {"crash": "unreadable output", "input": fi}

    def run_driver(self, script, payload, **k):
        return self.collect(self.driver(script, payload, **k))

    def run_drivers(self, script, payloads, par=8, **k):
        """Run several drivers, at most par at a time; results in order."""
        res, live, i = [None] * len(payloads), [], 0
        while i < len(payloads) or live:
            while i < len(payloads) and len(live) < par:
                live.append((i, self.driver(script, payloads[i], tag="drv%d" % i, **k)))
                i += 1
            j, h = live.pop(0)
            res[j] = self.collect(h)
        return res

    # ---------------------------------------------------------------- verdict
    def fail(self, clause, text, replay=None):
        self.fails.append((clause, text, replay))

    def sample(self, s, n=4):
        if len(self.samples) < n:
            self.samples.append(s)

    def finish(self, level="model_checking", **extra):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples, "models": self.models}
        cov.update(self.cov)
        cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.fails),
              "assumptions": self.assumptions}
        os.makedirs(os.path.join(EVID), exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rc = 0
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.fails:
            rp = os.path.join(EVID, "replay_%s_%d.json" % (self.prop, os.getpid()))
            with open(rp, "w") as f:
                json.dump([{"clause": c, "what": t, "replay": r} for c, t, r in self.fails[:20]], f, indent=1, default=str)
            for c, t, _ in self.fails[:10]:
                print("  clause %s: %s" % (c, t[:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            rc = 1
        else:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
                self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        return rc

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def parallel(fns, par=4):
    """Run functions concurrently (threads: they mostly wait for subprocesses); first exception wins."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(par) as ex:
        return [f.result() for f in [ex.submit(f) for f in fns]]
