"""Case runner: exhaustively executes every case a check enumerates, on 8 processes.

A check module (checks/Pxx.py) provides
    LEVEL, RULE, ASSUMPTIONS, BOUNDS(tier) -> str
    cases(tier)            -> iterable of JSON-able case descriptions (complete enumeration of the bound)
    run_case(case, ctx)    -> executes the case on the code under /repo; raises Violation on a breach
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Ctx:
    """per-case bookkeeping"""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.trail = []
        self.known = []

    def step(self, label=None, n=1):
        self.transitions += n
        if label is not None:
            self.trail.append(str(label)[:400])

    def new_trace(self):
        self.trail = []

    def state(self, key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.keys.add(int.from_bytes(h, "big"))

    def trace(self, n=1):
        self.traces += n

    def eval(self, n=1):
        self.evals += n

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(str(obj)[:600])

    def check(self, cond, msg, *args):
        if not cond:
            if callable(msg):
                msg = msg()
            raise Violation(str(msg) + (" " + " | ".join(map(str, args)) if args else ""))

    def eq(self, got, want, msg):
        if not (got == want):
            raise Violation(f"{msg}: got {got!r}, expected {want!r}")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "240"))


def _alarm(signum, frame):
    raise CaseTimeout()


_MOD = None
_TIER = "quick"


def _run_one(case):
    ctx = Ctx(_TIER)
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(_MOD, "CASE_TIMEOUT", CASE_TIMEOUT))
    try:
        with quiet():
            _MOD.run_case(case, ctx)
    except Violation as e:
        err = str(e)
    except CaseTimeout:
        err = "the code under test did not terminate within the time limit of this case\n" + traceback.format_exc(limit=-8)
    except Exception as e:  # noqa: the code under test raised where the property demands an answer
        err = f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-12)
    finally:
        signal.alarm(0)
    return {
        "case": case,
        "err": err,
        "trail": ctx.trail[-60:] if err else [],
        "transitions": ctx.transitions,
        "traces": ctx.traces,
        "evals": ctx.evals,
        "keys": ctx.keys,
        "samples": ctx.samples,
        "known": ctx.known,
    }


def _init(tmp):
    global _SCRATCH
    d = tempfile.mkdtemp(dir=tmp)
    os.chdir(d)
    import logging

    logging.lastResort = None
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _chunk(cs):
    return [_run_one(c) for c in cs]


def run(mod, pid, tier, seed, root, only=None):
    global _MOD, _TIER
    _MOD, _TIER = mod, tier
    t0 = time.time()
    cases = [only] if only is not None else list(mod.cases(tier))
    tmp = tempfile.mkdtemp(prefix=f"mc_{pid}_")
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "100000"))
    n_proc = min(8, len(cases)) or 1
    results = {"transitions": 0, "traces": 0, "evals": 0, "keys": set(), "samples": [], "known": []}
    viol = []
    done = 0
    incomplete = False
    # simplest first inside chunks; chunks are interleaved so that the load is balanced
    size = max(1, min(getattr(mod, "CHUNK", 8), len(cases) // (n_proc * 4) or 1))
    chunks = [cases[i : i + size] for i in range(0, len(cases), size)]
    try:
        pool = mp.get_context("fork").Pool(n_proc, initializer=_init, initargs=(tmp,), maxtasksperchild=getattr(mod, "MAXTASKS", None))
        try:
            it = pool.imap_unordered(_chunk, chunks)
            for _ in chunks:
                left = budget - (time.time() - t0)
                try:
                    rs = it.next(timeout=max(1, left))
                except mp.TimeoutError:
                    incomplete = True
                    break
                for r in rs:
                    done += 1
                    for k in ("transitions", "traces", "evals"):
                        results[k] += r[k]
                    results["keys"] |= r["keys"]
                    if len(results["samples"]) < 3:
                        results["samples"] += [{"case": r["case"], "observed": s} for s in r["samples"]]
                    for k in r["known"]:
                        if k not in results["known"]:
                            results["known"].append(k)
                    if r["err"]:
                        viol.append(r)
                if viol:
                    break
        finally:
            pool.terminate()
            pool.join()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return viol, results, len(cases), done, incomplete, time.time() - t0
