"""Shared machinery of the checks: TLC runner, trace encoding, verdict collection, evidence."""
import json, math, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NANV = 1_999_999_999          # NaN / undefined
BIG = 1_000_000_000           # clipping bound of encoded values


class Machinery(Exception):
    """The check itself failed (never a verdict on the code)."""


class Hang(BaseException):
    pass


def enc(v, scale=1):
    """Fixed-point encoding of a float: nearest multiple of 1/scale, as an int TLC can hold."""
    try:
        v = float(v)
    except Exception:
        return NANV
    if math.isnan(v):
        return NANV
    if math.isinf(v):
        return BIG if v > 0 else -BIG
    x = v * scale
    if abs(x) >= BIG:
        return BIG if x > 0 else -BIG
    return int(round(x))


def encv(a, scale=1):
    """Encode an array-like recursively."""
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        return enc(a, scale)
    return [encv(b, scale) for b in a]


def guarded(fn, seconds=20.0):
    """Run code under test: (True, value) or (False, 'ExceptionName: text'). Never hangs."""
    def handler(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return True, fn()
    except Hang:
        return False, "Hang: no result within %gs" % seconds
    except Machinery:
        raise
    except Exception as e:  # the code under test raised
        return False, "%s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Buffers:
    """Hands arrays over in the memory used the last time, as callers do that overwrite one array between calls."""

    def __init__(self, on=True):
        self.on, self.d = on, {}

    def __call__(self, name, a):
        import numpy as np
        a = np.array(a)
        b = self.d.get(name)
        if self.on and b is not None and b.shape == a.shape and b.dtype == a.dtype:
            b[...] = a
            return b
        self.d[name] = a
        return a


def pmap(fn, items, procs=7):
    """Order-preserving map over forked worker processes (the parent must not have imported jax)."""
    import multiprocessing as mp
    items = list(items)
    with mp.get_context("fork").Pool(min(procs, max(1, len(items)))) as pool:
        return pool.map(fn, items, chunksize=max(1, len(items) // (procs * 6)))


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.out = os.path.join(VERIF, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.vectors = 0
        self.samples = []
        self.notes = {}
        self.clauses = Counter()
        self.violations = []
        self.known_hits = []
        self.assumptions = []
        self.parts = []

    quick = property(lambda self: self.tier == "quick")

    def pick(self, q, t):
        return q if self.quick else t

    def rng(self, salt=0):
        import numpy as np
        return np.random.default_rng([self.seed, salt, sum(map(ord, self.prop))])

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=8, timeout=800, simulate=None, depth=None,
            heap="8g", expect_ok=True, count=True, coverage=False):
        """Run TLC on spec/<module>.tla with the given cfg text. Returns (stdout, tagged lines)."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Xss64m",
               "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dx=y",
               "-cp", _classpath(), "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(d, "m"),
               "-workers", str(workers), "-nowarning", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        if coverage:
            cmd += ["-coverage", "60"]
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        logp = os.path.join(d, "log")
        with open(logp, "w") as lf:
            p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=lf, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise Machinery("TLC timed out on %s" % module)
        out = open(logp, errors="replace").read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if not m:
            m = re.search(r"(\d+) states checked", out)
            gen = dist = int(m.group(1)) if m else 0
        tagged = []
        for line in out.splitlines():
            if line.startswith('"@'):
                try:
                    s = json.loads(line)
                except Exception:
                    raise Machinery("cannot parse TLC line: " + line[:300])
                tag, _, body = s[1:].partition(" ")
                tagged.append((tag, json.loads(body) if body else None))
        self.last_out = out
        if expect_ok and (rc != 0 or "Error:" in out):
            keep = os.path.join(self.out, "tlc-%s.log" % module)
            shutil.copy(logp, keep)
            raise Machinery("TLC failed on %s (rc %s), log %s\n%s" % (module, rc, keep, "\n".join(
                [l for l in out.splitlines() if not l.startswith('"@')][-25:])))
        if count:
            self.states += dist
            self.transitions += gen
            self.parts.append(dict(module=module, distinct_states=dist, states_generated=gen))
        shutil.rmtree(d, ignore_errors=True)
        return out, tagged

    # ---------------------------------------------------------- trace checks
    def validate(self, module, traces, cfg=None, workers=8, timeout=800, selftest=True, extra=None):
        """Validate recorded traces against spec/<module>.tla.

        traces: list of dict(id=str, key=str, ev=[...], ...).  The module prints @FAIL / @DONE lines.
        """
        if not traces:
            raise Machinery("no traces recorded for " + module)
        fails, done = self._run_traces(module, traces, cfg, workers, timeout)
        for i, f in fails.items():
            tr = traces[i - 1]
            self.violation(tr.get("key", tr["id"]), dict(kind="trace", module=module, trace_id=tr["id"],
                           event=f["l"], clauses=f["clauses"], trace=tr))
            for c in f["clauses"]:
                self.clauses["FAILED:" + c] += 1
        self.traces += len(done)
        return fails

    def _run_traces(self, module, traces, cfg, workers, timeout):
        path = os.path.join(self.work, module + "-traces.json")
        with open(path, "w") as f:
            json.dump(traces, f)
        out, tagged = self.tlc(module, cfg or "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n",
                               env=dict(TRACES=path), workers=workers, timeout=timeout)
        fails, done = {}, set()
        for tag, b in tagged:
            if tag == "FAIL":
                b["clauses"] = list(b["clauses"])
                if b["t"] not in fails:
                    fails[b["t"]] = b
            elif tag == "DONE":
                done.add(b["t"])
            elif tag == "COUNT":
                for k, v in b.items():
                    self.clauses[k] += v
        # a nondeterministic specification accepts a trace when some branch accepts it
        for t in list(fails):
            if t in done:
                del fails[t]
        missing = [t for t in range(1, len(traces) + 1) if t not in done and t not in fails]
        if missing:
            raise Machinery("no verdict for %d of %d traces of %s (first %s)\n%s" % (
                len(missing), len(traces), module, traces[missing[0] - 1]["id"], out[-1500:]))
        return fails, done

    def must_reject(self, module, traces, cfg=None):
        """Binding demonstration: corrupted copies of accepted traces must all be rejected."""
        s, t, p = self.states, self.transitions, list(self.parts)
        fails, done = self._run_traces(module, traces, cfg, 8, 600)
        self.states, self.transitions, self.parts = s, t, p
        missed = [traces[i - 1]["id"] for i in done]
        if missed:
            raise Machinery("binding self-test: corrupted traces accepted by %s: %s" % (module, missed[:5]))
        self.notes["corrupted_traces_rejected"] = self.notes.get("corrupted_traces_rejected", 0) + len(fails)

    # -------------------------------------------------------------- verdicts
    def violation(self, key, detail):
        self.violations.append((key, detail))

    def finish(self):
        known = load_known()
        unlisted = []
        for key, d in self.violations:
            hit = [k for k in known if k["property"] == self.prop and k.get("status") != "fixed" and k["key"] == key]
            if hit:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, hit[0]["what"]))
            else:
                unlisted.append((key, d))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces + self.vectors,
                                recorded_traces_checked_by_tlc=self.traces,
                                spec_vectors_replayed_into_code=self.vectors,
                                tlc_runs=self.parts, samples=self.samples[:6],
                                clause_counts=dict(self.clauses), **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(unlisted))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        if unlisted:
            seen = set()
            n = 0
            for key, d in unlisted:
                if key in seen:
                    continue
                seen.add(key)
                n += 1
                path = os.path.join(self.out, "replay-%d.json" % n)
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, key=key, detail=d), f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  key=%s %s" % (key, json.dumps({k: v for k, v in d.items() if k != "trace"}, default=str)[:600]))
                if n >= 8:
                    break
            return 1
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d vectors=%d wall=%.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, self.vectors, time.time() - self.t0))
        return 0


def _classpath():
    tl = "/opt/veriftools/tla"
    jars = [os.path.join(tl, j) for j in sorted(os.listdir(tl)) if j.endswith(".jar")]
    jars.sort(key=lambda j: 0 if "tla2tools" in j else 1)
    return ":".join(jars)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main(argv):
    prop = argv[1]
    import importlib
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import warnings
    warnings.filterwarnings("ignore")
    ctx = Ctx(prop)
    try:
        mod = importlib.import_module("p_" + prop.lower())
        mod.run(ctx)
        return ctx.finish()
    except Machinery as e:
        print("MACHINERY-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("MACHINERY-ERROR property=%s" % prop)
        return 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
