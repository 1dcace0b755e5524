"""Sub-checks, their search loop, sharding, evidence and replay files."""
import contextlib
import hashlib
import io
import json
import math
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class StopSearch(BaseException):
    """Raised to leave the search loop (budget used up)."""


class CaseTimeout(BaseException):
    pass


class Violation(AssertionError):
    pass


def check(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Info:
    """What a body reports about a case it ran to the end."""

    def __init__(self):
        self.labels = []
        self.nontrivial = True

    def label(self, *names):
        for n in names:
            self.labels.append(str(n))

    def trivial_if(self, cond):
        if cond:
            self.nontrivial = False


class Sub:
    """One generated check: strategy -> case (JSON-able) -> body(case, info)."""

    def __init__(self, name, strategy, body, quick=200, thorough=None, shards=2, budget=45.0,
                 thorough_budget=420.0, examples=(), case_timeout=100, rule="", nontrivial_rule=""):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.budget = budget
        self.thorough_budget = thorough_budget
        self.examples = list(examples)
        self.case_timeout = case_timeout
        self.rule = rule
        self.nontrivial_rule = nontrivial_rule


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


@contextlib.contextmanager
def quiet():
    """Silence the code under test (it prints a lot)."""
    out, err = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


def _alarm(signum, frame):
    raise CaseTimeout()


class Runner:
    def __init__(self, sub, seed, nmax, budget, scratch, shrink_budget=45.0):
        self.sub = sub
        self.seed = seed
        self.nmax = nmax
        self.budget = budget
        self.scratch = scratch
        self.shrink_budget = shrink_budget
        self.evaluations = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.failure = None
        self.t0 = time.time()
        self.tfail = None
        self.tcase = 0.0
        self.stopped = ""
        self.curfile = os.path.join(scratch, "current.json")

    def run_body(self, case):
        info = Info()
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.sub.case_timeout)
        try:
            with quiet():
                self.sub.body(case, info)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return info

    def one(self, case):
        now = time.time()
        if self.failure is None and now - self.t0 > self.budget:
            self.stopped = "time budget"
            raise StopSearch()
        if self.failure is not None and now - self.tfail > self.shrink_budget:
            raise StopSearch()
        case = jsonable(case)
        with open(self.curfile, "w") as f:
            json.dump(case, f)
        shrinking = self.failure is not None
        try:
            info = self.run_body(case)
        except CaseTimeout:
            self.failure = dict(case=case, error="case did not finish within %g s" % self.sub.case_timeout,
                                trace="")
            self.tfail = time.time()
            raise StopSearch()
        except Exception as e:  # any exception of the code under test is a violation
            if self.tfail is None:
                self.tfail = time.time()
            self.failure = dict(case=case, error="%s: %s" % (type(e).__name__, str(e)[:2000]),
                                trace=traceback.format_exc()[-3000:])
            raise
        if not shrinking:
            self.evaluations += 1
            for lab in info.labels:
                self.labels[lab] = self.labels.get(lab, 0) + 1
            if info.nontrivial:
                self.keys.add(case_key(case))
                if len(self.samples) < 2 or (len(self.samples) < 4 and self.evaluations % 17 == 0):
                    self.samples.append(case)

    def search(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        # fixed regression inputs first (they bypass the library)
        for ex in self.sub.examples:
            try:
                self.one(ex)
            except StopSearch:
                return
            except Exception:
                return
        if self.nmax <= 0:
            return
        strat = self.sub.strategy()
        runner = self

        @hypothesis.seed(self.seed)
        @settings(max_examples=self.nmax, deadline=None, database=None, derandomize=False,
                  report_multiple_bugs=False, print_blob=False, backend="hypothesis",
                  suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))
        @given(strat)
        def prop(case):
            runner.one(case)

        try:
            with quiet():
                prop()
        except StopSearch:
            pass
        except BaseException as e:
            if self.failure is None:
                raise

    def result(self):
        return dict(sub=self.sub.name, seed=self.seed, evaluations=self.evaluations,
                    keys=sorted(self.keys), labels=self.labels, samples=self.samples,
                    failure=self.failure, stopped=self.stopped, wall=time.time() - self.t0)


def derive_seed(seed, name, shard):
    h = hashlib.sha256(("%s|%s|%s" % (seed, name, shard)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def _worker(sub, seed, nmax, budget, outdir, shrink_budget):
    # scratch files of the code under test go to a directory of our own
    os.chdir(outdir)
    tempfile.tempdir = outdir
    os.environ["TMPDIR"] = outdir
    r = Runner(sub, seed, nmax, budget, outdir, shrink_budget)
    try:
        r.search()
        res = r.result()
    except BaseException:
        res = r.result()
        res["harness_error"] = traceback.format_exc()
    with open(os.path.join(outdir, "result.json"), "w") as f:
        json.dump(res, f)
    os._exit(0)


def run_subs(subs, tier, seed, jobs, scale=1.0, total_budget=None, log=sys.stderr):
    """Run all shards of all sub-checks, at most `jobs` at a time.  Returns list of results."""
    ctx = mp.get_context("fork")
    first = bool(os.environ.get("FP_FIRST"))  # development aid: stop at the first failure, unshrunk
    root = tempfile.mkdtemp(prefix="fpcheck-")
    tasks = []
    for sub in subs:
        n = sub.quick if tier == "quick" else sub.thorough
        shards = sub.shards if tier == "quick" else max(sub.shards, 8)
        n = max(1, int(math.ceil(n * scale / shards)))
        budget = sub.budget if tier == "quick" else sub.thorough_budget
        for s in range(shards):
            tasks.append((sub, derive_seed(seed, sub.name, s), n, budget, s))
    # interleave so that every sub-check gets started early
    tasks.sort(key=lambda t: t[4])
    running, results = {}, []
    stop_launch = False
    try:
        while tasks or running:
            while tasks and len(running) < jobs and not stop_launch:
                sub, sd, n, budget, s = tasks.pop(0)
                d = tempfile.mkdtemp(prefix="%s-%d-" % (sub.name, s), dir=root)
                p = ctx.Process(target=_worker, args=(sub, sd, n, budget, d, 0.0 if first else 45.0))
                p.start()
                running[p.pid] = (p, sub, d, time.time(), budget)
            if stop_launch:
                tasks = []
            time.sleep(0.02)
            for pid in list(running):
                p, sub, d, t0, budget = running[pid]
                if p.is_alive():
                    if time.time() - t0 > budget + sub.case_timeout + 90:
                        os.kill(pid, signal.SIGKILL)
                        p.join()
                        res = dict(sub=sub.name, harness_error="worker overran its limit")
                        _attach_current(res, d)
                        results.append(res)
                        del running[pid]
                    continue
                p.join()
                del running[pid]
                rf = os.path.join(d, "result.json")
                if os.path.exists(rf):
                    with open(rf) as f:
                        res = json.load(f)
                else:
                    res = dict(sub=sub.name, evaluations=0, keys=[], labels={}, samples=[],
                               failure=None, stopped="", wall=time.time() - t0)
                    case = _current(d)
                    if p.exitcode is not None and p.exitcode < 0 and -p.exitcode != signal.SIGKILL:
                        res["failure"] = dict(case=case, trace="",
                                              error="process died from signal %d" % -p.exitcode)
                    elif p.exitcode not in (0, None) and p.exitcode > 0 and case is not None:
                        res["failure"] = dict(case=case, trace="",
                                              error="process exited with status %d" % p.exitcode)
                    else:
                        res["harness_error"] = "worker ended with %r" % (p.exitcode,)
                results.append(res)
                if res.get("failure"):
                    stop_launch = True
                    if first:
                        return results
                shutil.rmtree(d, ignore_errors=True)
    finally:
        for pid in list(running):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(root, ignore_errors=True)
    return results


def _current(d):
    try:
        with open(os.path.join(d, "current.json")) as f:
            return json.load(f)
    except Exception:
        return None


def _attach_current(res, d):
    res.update(evaluations=0, keys=[], labels={}, samples=[], failure=None, stopped="", wall=0)
    res["last_case"] = _current(d)
