"""Shared machinery of the checks: run Quint, read ITF traces, replay them into the
real code, compare, keep count, and turn the outcome into a verdict.

A verdict is total: 0 (held on everything explored) or 1 (+ VIOLATION line).  Anything
that keeps the machinery itself from working (Quint missing, specification broken) is
exit 2, and is never produced by a change in what /repo's code computes.
"""
from __future__ import annotations
import contextlib, glob, io, json, math, multiprocessing as mp, os, shutil, signal, subprocess
import sys, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
SCALE = 10 ** 12
NCPU = max(1, min(8, os.cpu_count() or 1))

sys.dont_write_bytecode = True
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)
warnings.simplefilter("ignore")


class MachineryError(Exception):
    pass


class Mismatch(Exception):
    """The implementation left the behaviour the specification allows."""
    def __init__(self, clause, detail):
        super().__init__(f"{clause}: {detail}")
        self.clause, self.detail = clause, detail


# ----------------------------------------------------------------------------- ITF
def itf(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#tup" in v:
            return tuple(itf(x) for x in v["#tup"])
        if "#set" in v:
            return [itf(x) for x in v["#set"]]
        if "#map" in v:
            return {hashable(itf(k)): itf(x) for k, x in v["#map"]}
        return {k.rsplit("::", 1)[-1]: itf(x) for k, x in v.items() if not k.startswith("#")}
    if isinstance(v, list):
        return [itf(x) for x in v]
    return v


def hashable(k):
    return tuple(k) if isinstance(k, list) else k


def fx(v):
    """fixed point -> float (recursively)"""
    if isinstance(v, list):
        return [fx(x) for x in v]
    return v / SCALE


# ------------------------------------------------------------------------- compare
def near(a, b, rel=1e-6, abs_=1e-6):
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def expect(clause, got, want, rel=1e-6, abs_=1e-6, **ctx):
    if isinstance(want, (list, tuple)):
        try:
            n = len(got)
        except TypeError:
            raise Mismatch(clause, dict(got=repr(got), want=list(want), **ctx))
        if n != len(want):
            raise Mismatch(clause, dict(got_len=n, want_len=len(want), **ctx))
        for i, (g, w) in enumerate(zip(got, want)):
            expect(clause, g, w, rel, abs_, index=i, **ctx)
        return
    try:
        ok = near(got, want, rel, abs_)
    except (TypeError, ValueError):
        ok = False
    if not ok:
        raise Mismatch(clause, dict(got=repr(got), want=want, **ctx))


def require(clause, cond, **ctx):
    if not cond:
        raise Mismatch(clause, {k: (repr(v) if not isinstance(v, (int, float, str, list, dict, type(None))) else v)
                                for k, v in ctx.items()})


@contextlib.contextmanager
def quiet():
    """Swallow stdout of the code under test (it must not forge our output)."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


class _Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise _Timeout()


def guarded(fn, item, limit=240):
    """Run one replay; returns (stats, failure|None)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with quiet():
                st = fn(item)
        return (st or {}), None
    except Mismatch as e:
        return {}, dict(clause=e.clause, detail=e.detail)
    except MachineryError:
        raise
    except _Timeout:
        return {}, dict(clause="terminates", detail=dict(error=f"no result after {limit} s"))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(f.filename.startswith(REPO_SRC) for f in tb)
        where = [f"{f.filename}:{f.lineno} {f.name}" for f in tb[-4:]]
        if inrepo or isinstance(e, (AttributeError, TypeError, ImportError, KeyError, IndexError)):
            return {}, dict(clause="no-unexpected-error", detail=dict(error=repr(e), where=where))
        raise MachineryError(f"{e!r} at {where}")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


_JOB = None          # (fn, items, limit, stop flag): inherited by the forked workers


class Decided(Exception):
    """A violation is established: nothing further needs to run."""


def _work(chunk):
    return [_work1(i) for i in chunk]


def _work1(idx):
    fn, items, limit, stop = _JOB
    if stop.value:
        return idx, {}, None, "skipped"
    try:
        st, bad = guarded(fn, items[idx], limit)
        if bad and bad["clause"] == "terminates":
            stop.value = 1
        return idx, st, bad, None
    except MachineryError as e:
        return idx, {}, None, str(e)


# ---------------------------------------------------------------------------- check
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.verify_runs = []
        self.counts = {}
        self.samples = []
        self.failures = []
        self.assumptions = []
        self.parts = []
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        self.known = self._load_known()
        self.known_hit = {}

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    # -- known findings -------------------------------------------------------------
    def _load_known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [k for k in json.load(f).get("findings", []) if k["property"] == self.prop]

    # -- Quint ------------------------------------------------------------------------
    def generate(self, spec, main, traces, steps, invariants=("inv",), init="init", step="step",
                 procs=NCPU, label=None, timeout=800):
        """Random behaviours of the specification, invariants checked in every state."""
        procs = max(1, min(procs, traces))
        per = math.ceil(traces / procs)
        jobs = []
        tag = label or main
        for i in range(procs):
            d = os.path.join(self.scratch, f"{tag}_{i}")
            os.makedirs(d, exist_ok=True)
            seed = (self.seed * 7919 + i * 104729 + sum(map(ord, tag))) % (2 ** 31) + 1
            cmd = ["quint", "run", os.path.join(SPEC, spec), "--main", main, "--init", init, "--step", step,
                   "--max-samples", str(per), "--n-traces", str(per), "--max-steps", str(steps),
                   "--seed", str(seed), "--verbosity", "1",
                   "--out-itf", os.path.join(d, "t_{seq}.itf.json")]
            if invariants:
                cmd += ["--invariants", *invariants]
            jobs.append((d, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        out = []
        for d, p in jobs:
            try:
                o, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                raise MachineryError(f"quint run timed out on {spec}:{main}")
            if p.returncode != 0:
                for _, q in jobs:
                    if q.poll() is None:
                        q.kill()
                raise MachineryError(f"quint run failed on {spec}:{main}\n{o[-3000:]}")
            for f in sorted(glob.glob(os.path.join(d, "t_*.itf.json"))):
                with open(f) as fh:
                    raw = json.load(fh)
                sts = [itf(s) for s in raw["states"]]
                out.append(sts)
                self.states += len(sts)
                self.transitions += len(sts) - 1
            shutil.rmtree(d, ignore_errors=True)
        if not out:
            raise MachineryError(f"quint produced no traces for {spec}:{main}")
        self.parts.append(dict(spec=f"{spec}:{main}", kind="simulate", traces=len(out), steps=steps,
                               invariants=list(invariants)))
        return out

    def verify(self, spec, main, invariants, steps, init="init", step="step", timeout=600, optional=False):
        """Bounded symbolic model checking with Apalache (all behaviours up to `steps`)."""
        home = os.path.join(self.scratch, "apalache")
        os.makedirs(home, exist_ok=True)
        port = 20000 + (os.getpid() * 7 + len(self.verify_runs) * 13) % 40000
        cmd = ["quint", "verify", os.path.join(SPEC, spec), "--main", main, "--init", init, "--step", step,
               "--max-steps", str(steps), "--verbosity", "1", "--server-endpoint", f"localhost:{port}",
               "--invariants", *invariants]
        t = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=home,
                             start_new_session=True)
        try:
            o, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc, o = None, "timeout"
        finally:
            with contextlib.suppress(ProcessLookupError):
                os.killpg(p.pid, signal.SIGKILL)
        rec = dict(spec=f"{spec}:{main}", kind="verify(apalache)", depth=steps, invariants=list(invariants),
                   outcome="no violation" if rc == 0 else ("timeout" if rc is None else "error"),
                   wall_s=round(time.time() - t, 1))
        self.verify_runs.append(rec)
        if rc == 0:
            return True
        if optional:
            return False
        raise MachineryError(f"quint verify failed on {spec}:{main}\n{o[-3000:]}")

    def tests(self, spec, main, timeout=300):
        p = subprocess.run(["quint", "test", os.path.join(SPEC, spec), "--main", main, "--seed", str(self.seed),
                            "--max-samples", "100", "--verbosity", "1"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if p.returncode != 0:
            raise MachineryError(f"quint test failed on {spec}:{main}\n{p.stdout[-3000:]}")

    def validate(self, name, text, main, max_steps, rows, timeout=600, extra=()):
        """Check recorded implementation traces with the specification: `text` is a Quint
        module (importing the specification) holding the recorded rows; its `ok` must be
        an invariant and its final state must have consumed every row (`done`)."""
        d = os.path.join(self.scratch, f"val_{name}")
        shutil.copytree(SPEC, d)
        f = os.path.join(d, f"{name}.qnt")
        with open(f, "w") as fh:
            fh.write(text)
        outp = os.path.join(d, "out.itf.json")
        cmd = ["quint", "run", f, "--main", main, "--max-samples", "1", "--n-traces", "1", "--max-steps", str(max_steps),
               "--seed", "1", "--verbosity", "1", "--out-itf", outp, *extra]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if not os.path.exists(outp):
            raise MachineryError(f"trace validation {name} did not run\n{p.stdout[-3000:]}")
        with open(outp) as fh:
            sts = [itf(s) for s in json.load(fh)["states"]]
        self.states += len(sts)
        self.transitions += len(sts) - 1
        shutil.rmtree(d, ignore_errors=True)
        return sts

    # -- replay -------------------------------------------------------------------------
    def replay(self, fn, items, what, limit=240, procs=NCPU, chunksize=None):
        """Run fn(item) on every item in parallel; collect failures."""
        global _JOB
        n = len(items)
        before = len(self.failures)
        ctx = mp.get_context("fork")
        stop = ctx.Value("b", 0, lock=False)
        cs = chunksize or max(1, min(16, n // (procs * 4) or 1))
        err = None
        # The items reach the workers by fork and only their indices through the pipe: a pool that
        # is ended while its task pipe is full never ends. Workers drain the rest once `stop` is set.
        _JOB = (fn, items, limit, stop)
        with ctx.Pool(procs) as pool:
            it = pool.imap_unordered(_work, [range(i, min(n, i + cs)) for i in range(0, n, cs)])
            while True:
                try:
                    rows = it.next(timeout=800)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    err = f"a worker of {what} gave no answer"
                    break
                for idx, st, bad, merr in rows:
                    if merr == "skipped":
                        continue
                    if merr:
                        err = merr
                    elif bad is None:
                        self.validated += 1
                        for k, v in st.items():
                            self.counts[k] = self.counts.get(k, 0) + v
                    else:
                        self._fail(what, idx, items[idx], bad)
                        if len(self.failures) - before >= 8:
                            stop.value = 1
        _JOB = None
        if len(self.failures) > before:
            raise Decided()
        if err:
            raise MachineryError(err)
        if items and len(self.samples) < 6:
            self.samples.append(dict(what=what, item=_short(items[len(items) // 2])))

    def _fail(self, what, idx, item, bad):
        for k in self.known:
            if k.get("what") in (None, what) and k.get("clause") == bad["clause"] and \
                    all(s in json.dumps(bad["detail"], default=str) + json.dumps(item, default=str) for s in k.get("match", [])):
                self.known_hit.setdefault(k["id"], k)
                return
        self.failures.append(dict(what=what, clause=bad["clause"], detail=bad["detail"], item=item, index=idx))

    def fail(self, what, clause, detail, item=None):
        self._fail(what, 0, item, dict(clause=clause, detail=detail))

    def direct(self, fn, what, item=None, limit=600):
        """One in-process replay."""
        try:
            st, bad = guarded(lambda _: fn(), item, limit)
        except MachineryError:
            raise
        if bad:
            self._fail(what, 0, item, bad)
        else:
            self.validated += 1
            for k, v in st.items():
                self.counts[k] = self.counts.get(k, 0) + v

    # -- verdict ------------------------------------------------------------------------
    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        evd = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        lines = []
        for k in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what_fails']}")
        if self.failures:
            rd = os.path.join(evd, "replay")
            os.makedirs(rd, exist_ok=True)
            seen = {}
            for f in self.failures:
                seen.setdefault((f["what"], f["clause"]), f)
            for i, f in enumerate(list(seen.values())[:5]):
                path = os.path.join(rd, f"{self.prop}-{i}.json")
                with open(path, "w") as fh:
                    json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, **f), fh, default=str, indent=1)
                print(f"  {f['what']} / {f['clause']}: {json.dumps(f['detail'], default=str)[:600]}")
                print(f"VIOLATION property={self.prop} replay={path}")
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   samples=self.samples or [dict(note="no replay ran")],
                   parts=self.parts, counts=self.counts)
        if self.verify_runs:
            cov["symbolic"] = self.verify_runs
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.failures))
        with open(os.path.join(evd, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print(f"{self.prop} {self.tier}: states={self.states} traces={self.validated} "
              f"violations={len(self.failures)} {ev['wall_s']}s {self.counts}")
        sys.stdout.flush()
        return 1 if self.failures else 0


def _short(x, n=1500):
    s = json.dumps(x, default=str)
    return json.loads(s) if len(s) <= n else s[:n] + "..."


def main(prop, body, level="model_checking"):
    ck = Check(prop, level)
    try:
        import ecoengine
        if not os.path.abspath(ecoengine.__file__).startswith(os.path.abspath(REPO_SRC)):
            raise MachineryError(f"ecoengine imported from {ecoengine.__file__}")
        body(ck)
    except Decided:
        pass
    except MachineryError as e:
        print("MACHINERY-ERROR", e)
        shutil.rmtree(ck.scratch, ignore_errors=True)
        if ck.failures:           # a violation already established stands
            sys.exit(ck.finish())
        sys.exit(2)
    sys.exit(ck.finish())
