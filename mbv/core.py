"""Infrastructure shared by the conformance drivers.

A *driver* replays behaviours generated by TLC from the specifications in
/verif/spec in the real refellips code.  Every assertion carries the set of
property ids it decides.  While checking property P an assertion that fails and
is tagged with P is a violation; one that fails and is not tagged with P only
ends that behaviour (it "diverged": the code left the specification in a way
that another property's check reports).
"""
import json
import os
import random
import signal
import time
import traceback
import zlib
import concurrent.futures as cf

import numpy as np


class Violation(Exception):
    def __init__(self, tags, msg):
        super().__init__(msg)
        self.tags = frozenset(tags.split() if isinstance(tags, str) else tags)
        self.msg = msg


class MachineryError(Exception):
    """Something is wrong with the verification machinery itself."""


class CaseTimeout(BaseException):
    pass


def seed_of(*parts):
    return zlib.crc32(json.dumps(parts, sort_keys=True, default=str).encode())


class Case:
    """One concretisation of one behaviour: rng, scratch folder, tags."""

    def __init__(self, prop, seed, scratch, index=0):
        self.prop = prop
        self.rng = random.Random(seed)
        self.np = np.random.default_rng(seed)
        self.scratch = scratch
        self.index = index          # concretisation number of this behaviour
        self.guarded = []           # caller-owned inputs
        self.default_tags = (prop,)
        self.extra_tags = set()     # properties every further failure is about
        self.steps = 0

    # ---- assertions
    def ensure(self, cond, tags, msg, *args):
        if not cond:
            if isinstance(tags, str):
                tags = tags.split()
            raise Violation(tags, msg.format(*args) if args else msg)

    def call(self, tags, what, f, *a, **k):
        """Call into the code under test; raising is a violation of `tags`."""
        if isinstance(tags, str):
            tags = tags.split()
        try:
            return f(*a, **k)
        except Violation:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ""
            for fr in reversed(tb):
                if "refellips" in fr.filename or "tools" in fr.filename:
                    where = f" at {os.path.basename(fr.filename)}:{fr.lineno} in {fr.name}"
                    break
            raise Violation(
                tags, f"{what} raised {type(e).__name__}: {e}{where}"
            ) from None

    def refused(self, tags, what, exc, f, *a, **k):
        """`f` has to raise one of `exc`."""
        if isinstance(tags, str):
            tags = tags.split()
        try:
            f(*a, **k)
        except exc:
            return
        except Exception as e:
            raise Violation(
                tags, f"{what} should be refused, raised {type(e).__name__}: {e}"
            ) from None
        raise Violation(tags, f"{what} should have been refused")

    # ---- caller-owned inputs (property C04)
    def own(self, obj, label):
        """Remember the contents of an input that belongs to the caller."""
        if isinstance(obj, np.ndarray):
            snap = obj.copy()
        elif isinstance(obj, list):
            snap = [x.copy() if isinstance(x, (list, np.ndarray)) else x for x in obj]
        elif isinstance(obj, tuple):
            snap = tuple(x.copy() if isinstance(x, (list, np.ndarray)) else x for x in obj)
        else:
            return obj
        self.guarded.append((label, obj, snap))
        return obj

    def verify_owned(self, op=""):
        for label, obj, snap in self.guarded:
            if not same_value(obj, snap):
                raise Violation(
                    ("C04",), f"{op}: caller's {label} was modified: {short(snap)} -> {short(obj)}"
                )


def same_value(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return (
            a.shape == b.shape
            and a.dtype == b.dtype
            and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
        )
    if isinstance(a, (list, tuple)):
        return (
            type(a) is type(b)
            and len(a) == len(b)
            and all(same_value(x, y) for x, y in zip(a, b))
        )
    return type(a) is type(b) and (a == b or (a != a and b != b))


def short(x, n=200):
    s = repr(x).replace("\n", " ")
    return s if len(s) <= n else s[: n - 3] + "..."


def close(a, b, rtol=1e-9, atol=1e-9):
    """Same shape and numerically equal within tolerance, NaN never equal."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    with np.errstate(all="ignore"):
        return bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def angle_close(a, b, atol=1e-6, period=360.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    d = np.abs(a - b) % period
    return bool(np.all(np.minimum(d, period - d) <= atol))


# ---------------------------------------------------------------- replay pool
_DRIVERS = {}


def get_driver(name):
    if name not in _DRIVERS:
        import importlib

        _DRIVERS[name] = importlib.import_module(f"mbv.drv_{name}")
    return _DRIVERS[name]


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(job):
    """Replay one behaviour; returns a result record.  Runs in a worker."""
    drv_name, prop, beh, case_seed, index, opts, limit = job
    res = dict(status="ok", steps=0)
    scratch = os.path.join(
        os.environ.get("MBV_SCRATCH", "/tmp"), f"w{os.getpid()}"
    )
    os.makedirs(scratch, exist_ok=True)
    case = Case(prop, case_seed, scratch, index)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with np.errstate(all="ignore"):
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                drv = get_driver(drv_name)
                drv.replay(case, beh, opts)
    except Violation as v:
        if prop in v.tags or prop in case.extra_tags:
            res.update(status="violation", msg=v.msg)
        else:
            res.update(status="diverged", msg=v.msg, tags=sorted(v.tags))
    except CaseTimeout:
        res.update(status="violation", msg=f"no answer within {limit} s")
    except MachineryError as e:
        res.update(status="machinery", msg=str(e))
    except BaseException as e:  # code under test raised where it must not
        res.update(
            status="violation",
            msg="unexpected " + "".join(
                traceback.format_exception_only(type(e), e)
            ).strip()
            + " | "
            + " <- ".join(
                f"{os.path.basename(f.filename)}:{f.lineno}"
                for f in reversed(traceback.extract_tb(e.__traceback__)[-6:])
            ),
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res["steps"] = case.steps
    return res


def run_chunk(jobs):
    out = []
    for j in jobs:
        r = run_case(j)
        out.append(r)
        if r["status"] == "violation":
            break
    return out


class Silence:
    """The library prints; keep that out of the check's stdout."""

    def __enter__(self):
        self.fd = os.dup(1)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.close(dn)

    def __exit__(self, *a):
        os.dup2(self.fd, 1)
        os.close(self.fd)


def _init_worker():
    import sys

    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = os.fdopen(1, "w", closefd=False)
    import warnings

    warnings.simplefilter("ignore")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.diverged = 0
        self.diverged_msgs = {}
        self.samples = []
        self.modules = []
        self.violations = []
        self.workers = int(os.environ.get("MBV_WORKERS", "8"))
        self.pool = None
        self.notes = []

    # ---------------------------------------------------------------- pool
    def _pool(self):
        if self.pool is None:
            import multiprocessing as mp

            self.pool = cf.ProcessPoolExecutor(
                self.workers, mp_context=mp.get_context("fork"),
                initializer=_init_worker,
            )
        return self.pool

    def close(self):
        if self.pool is not None:
            self.pool.shutdown(wait=True, cancel_futures=True)
            self.pool = None

    def replay(self, driver, behaviours, repeats=1, opts=None, limit=60,
               chunk=None, label=None):
        """Replay every behaviour `repeats` times with different values."""
        if self.violations:
            return
        opts = dict(opts or {})
        jobs = []
        for r in range(repeats):
            for b in behaviours:
                jobs.append((driver, self.prop, b,
                             seed_of(self.seed, r, b, driver), r, opts, limit))
        if not jobs:
            raise MachineryError(f"no behaviours for {driver}")
        if len(self.samples) < 4:
            self.samples.append(dict(driver=driver, label=label,
                                     behaviour=behaviours[len(behaviours) // 2]))
        chunk = chunk or max(1, min(200, len(jobs) // (self.workers * 4) or 1))
        chunks = [jobs[i:i + chunk] for i in range(0, len(jobs), chunk)]
        futs = {}
        try:
            pool = self._pool()
            for c in chunks:
                futs[pool.submit(run_chunk, c)] = c
            for f in cf.as_completed(futs):
                jobs_c = futs[f]
                for j, r in zip(jobs_c, f.result()):
                    self._account(j, r)
                if self.violations:
                    for g in futs:
                        g.cancel()
                    break
        except cf.process.BrokenProcessPool:
            self.pool = None
            # find the culprit: run each unfinished chunk in its own process
            self._bisect([c for f, c in futs.items() if not (
                f.done() and not f.cancelled() and f.exception() is None)])

    def _account(self, j, r):
        self.steps += r["steps"]
        if r["status"] == "ok":
            self.traces += 1
        elif r["status"] == "diverged":
            self.diverged += 1
            k = ",".join(r["tags"]) + ": " + r["msg"][:160]
            if len(self.diverged_msgs) < 20:
                self.diverged_msgs[k] = self.diverged_msgs.get(k, 0) + 1
        elif r["status"] == "machinery":
            raise MachineryError(r["msg"])
        else:
            self.traces += 1
            self.violations.append((j, r["msg"]))

    def _bisect(self, chunks):
        for c in chunks[:8]:
            for j in c:
                pid = os.fork()
                if pid == 0:
                    try:
                        _init_worker()
                        r = run_case(j)
                        os._exit(0 if r["status"] != "violation" else 1)
                    finally:
                        os._exit(2)
                _, st = os.waitpid(pid, 0)
                if os.WIFSIGNALED(st):
                    self.violations.append((j, f"the process was killed by signal {os.WTERMSIG(st)}"))
                    return
                if os.WEXITSTATUS(st) == 1:
                    r = run_case(j)
                    self.violations.append((j, r.get("msg", "violation")))
                    return
        raise MachineryError("replay pool broke and no culprit was found")

    # ------------------------------------------------------------ evidence
    def finish(self, technique):
        from . import known

        self.close()
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        rc = 0
        nviol = 0
        for j, msg in self.violations:
            k = known.match(self.prop, msg)
            if k:
                print(f"KNOWN-FINDING: property={self.prop} {k}")
                continue
            nviol += 1
            os.makedirs(os.path.join(root, "replays"), exist_ok=True)
            path = os.path.join(root, "replays", f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, driver=j[0], behaviour=j[2],
                               case_seed=j[3], index=j[4], opts=j[5], msg=msg), f)
            print(f"{self.prop}: {msg}")
            print(f"VIOLATION property={self.prop} replay={path}")
            rc = 1
            break
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed,
            level="model_checking",
            coverage=dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                replayed_steps=self.steps,
                behaviours_left_to_other_properties=self.diverged,
                modules=self.modules,
                samples=self.samples[:4],
                notes=self.notes,
            ),
            assumptions=ASSUMPTIONS,
            wall_s=round(time.time() - self.t0, 2),
            violations=nviol,
        )
        os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
        with open(os.path.join(root, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.diverged_msgs and os.environ.get("MBV_VERBOSE"):
            for k, v in self.diverged_msgs.items():
                print("  diverged", v, k)
        print(f"{self.prop}: {self.states} states, {self.transitions} transitions,"
              f" {self.traces} behaviours replayed ({self.steps} steps),"
              f" {self.diverged} diverged, {ev['wall_s']} s")
        return rc


ASSUMPTIONS = [
    "the specification is bound to the code by replay: inputs outside the generated behaviours are not covered",
    "numeric terms are compared with an independent double precision oracle within stated tolerances",
    "numpy, scipy, pandas, refnx and matplotlib are trusted",
]
