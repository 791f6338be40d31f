"""P25: parallel evaluation - every value reaches the point it belongs to, whatever the order in which the workers finish."""
import itertools
import math
import os
import shutil
import tempfile
import threading
import time

import numpy as np

from mc import bo, spaces

LEVEL = "model_checking"
ASSUMPTIONS = ["workers are threads (joblib's threading backend), each evaluation runs until the schedule lets it finish", "the surrogate is a stand-in"]
CHUNK = 1
SP = [["d", ["x", "y"]], ["r", -2.0, 2.0], ["i", 0, 50]]
NM = spaces.names(SP)


def BOUNDS(tier):
    return f"batches of 2-{3 if tier == 'quick' else 4} candidates, 2-4 workers, every order in which the running evaluations can finish, in the initial design and in a model-based iteration; an exception or a failed value at every position of every order; list/dict, min/max; the same for two objectives (initial design); 5 and 7 candidates on 2 workers and 4 on 3; objectives that evaluate a whole batch, returning lists, tuples, arrays and columns, with one, two or three failed values at each position"


def cases(tier):
    out = []
    for cls in ("ParallelBO", "NoisyBO"):
        for n in (2, 3) if tier == "quick" else (2, 3, 4):
            for nj in (2, 3, 4):
                for ev in ("list", "dict"):
                    for bad in ["none", "raise", "nan"]:
                        if cls == "NoisyBO" and (bad != "none" or nj != 3) and tier == "quick":
                            continue
                        for phase in ("doe", "model"):
                            out.append({"k": "jobs", "cls": cls, "n": n, "nj": nj, "ev": ev, "bad": bad, "phase": phase, "min": (n + nj) % 2 == 0})
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for nj in (2, 3):
            for ev in ("list", "dict"):
                for which in (0, 1):
                    out.append({"k": "mo", "n": n, "nj": nj, "ev": ev, "which": which, "bad": "none"})
    for n, nj in ((5, 2), (4, 3)) if tier == "quick" else ((5, 2), (6, 2), (5, 3), (7, 2)):  # more candidates than the workers take at once
        for ev in ("list", "dict"):
            out.append({"k": "jobs", "cls": "ParallelBO", "n": n, "nj": nj, "ev": ev, "bad": "none", "phase": "model", "min": ev == "list"})
            out.append({"k": "mo", "n": n, "nj": nj, "ev": ev, "which": int(ev == "list"), "bad": "none"})
    if tier == "quick":
        out.append({"k": "jobs", "cls": "ParallelBO", "n": 7, "nj": 2, "ev": "list", "bad": "none", "phase": "model", "min": True})
    for n in (2, 3):
        for ev in ("list", "dict"):
            for ret in ("list", "tuple", "array", "column"):
                out.append({"k": "batch", "n": n, "ev": ev, "ret": ret, "bad": None})
                for b in range(4 + 2 * n):
                    out.append({"k": "batch", "n": n, "ev": ev, "ret": ret, "bad": b})
    return out


class Gate:
    """lets exactly one running evaluation finish at a time, chosen by the script among the running ones"""

    def __init__(self, total, width, script):
        self.cv = threading.Condition()
        self.total, self.width, self.script = total, width, list(script)
        self.running, self.done, self.order, self.widths = [], 0, [], []
        self.turn = None
        self.calls = []
        self.open = False

    def choose(self):
        want = min(self.width, self.total - self.done)
        if self.turn is None and len(self.running) >= want and self.running:
            c = self.script[len(self.order)] if len(self.order) < len(self.script) else 0
            c = min(c, len(self.running) - 1)
            self.widths.append(len(self.running))
            self.turn = sorted(self.running)[c]
            self.order.append(c)

    def enter(self, x):
        with self.cv:
            key = len(self.calls)
            self.calls.append(x)
            self.running.append(key)
            self.choose()
            self.cv.notify_all()
            t0 = time.time()
            while not self.open and self.turn != key:
                self.cv.wait(0.02)
                if time.time() - t0 > 0.5 and self.turn is None and self.running:
                    # fewer evaluations run side by side than there are workers: go on with those that run
                    self.turn = sorted(self.running)[0]
                    self.order.append(0)
                    self.widths.append(1)
                    self.cv.notify_all()
            self.running.remove(key)
            self.done += 1
            self.turn = None
            self.choose()
            self.cv.notify_all()
        return key


class Boom(Exception):
    pass


def f_of(x):
    v = [x[n] for n in NM] if isinstance(x, dict) else list(x)
    return bo.fval(v)


def run_jobs(case, ctx, script, badpos):
    from joblib import parallel_backend

    n, nj = case["n"], case["nj"]
    state = {"gate": None}

    def obj(x):
        g = state["gate"]
        if g is None:
            return f_of(x)
        key = g.enter(x)
        if badpos is not None and len(g.order) and x_id(x) == state["bad"]:
            if case["bad"] == "raise":
                raise Boom("objective failed")
            return float("nan")
        return f_of(x)

    def x_id(x):
        return bo.key([x[m] for m in NM] if isinstance(x, dict) else x)

    doe = 4 if case["phase"] == "model" else n
    opt = bo.make(case["cls"], SP, n_point=n, DoE_size=doe, eval_type=case["ev"], minimize=case["min"], obj_fun=obj, n_job=1)
    np.random.seed(7)
    if case["phase"] == "model":
        opt.step()
    before = ([] if not hasattr(opt, "data") else opt.data.tolist(), opt.eval_count, opt.iter_count)
    np.random.seed(8)
    X = opt.ask()
    ctx.eq(len(X), n, "number of candidates")
    ids = [x_id(x) for x in X]
    if badpos is not None:
        state["bad"] = ids[badpos]
    g = state["gate"] = Gate(n, min(nj, n), script)
    opt.n_job = nj
    err = None
    with parallel_backend("threading"):
        try:
            vals = opt.evaluate(X)
        except Boom as e:
            err = e
        finally:
            with g.cv:
                g.open = True
                g.cv.notify_all()
    opt.n_job = 1
    ctx.step(f"candidates {X}, workers {nj}, finished in the order (position among the running) {g.order}, bad {badpos}")
    if case["bad"] == "raise" and badpos is not None:
        ctx.check(err is not None, "the exception of the objective did not reach the caller")
        after = ([] if not hasattr(opt, "data") else opt.data.tolist(), opt.eval_count, opt.iter_count)
        ctx.eq(after, before, "a failed evaluation changed the recorded data or counters")
        state["gate"] = None
        Y = opt.ask()
        ctx.eq(len(Y), n, "number of candidates after a failure")
        return g
    ctx.check(err is None, f"unexpected failure {err}")
    ctx.eq(sorted(map(repr, map(x_id, g.calls))), sorted(map(repr, ids)), "every candidate is evaluated exactly once")
    vals = list(vals)
    ctx.eq(len(vals), n, "number of values")
    for k, (x, v) in enumerate(zip(X, vals)):
        if k == badpos:
            ctx.check(math.isnan(v), f"the failed value of {x} became {v}")
        else:
            ctx.eq(float(v), f_of(x), f"value of candidate {k}")
    opt.tell(X, vals)
    rows, fit = opt.data.tolist()[len(before[0]) :], np.ravel(opt.data.fitness)[len(before[0]) :]
    want = [(i, f_of(x)) for k, (i, x) in enumerate(zip(ids, X)) if k != badpos]
    ctx.eq([(bo.key(r), float(v)) for r, v in zip(rows, fit)], want, "recorded points and values")
    ctx.eq(opt.eval_count, before[1] + n, "number of evaluations")
    ctx.state((case["cls"], case["phase"], n, nj, case["ev"], tuple(g.order), badpos, case["bad"]))
    return g


def run_mo(case, ctx, script, _):
    """several objectives, evaluated by several workers each: the finishing order of objective `which` is enumerated"""
    from joblib import parallel_backend

    n, nj = case["n"], case["nj"]
    g = Gate(n, min(nj, n), script)
    f2 = lambda x: 3.0 - 2.0 * f_of(x) + (x["x1"] if isinstance(x, dict) and "x1" in x else 0.0)
    plain = [f_of, f2]

    def gated(x):
        g.enter(x)
        return plain[case["which"]](x)

    funs = [gated if j == case["which"] else plain[j] for j in range(2)]
    opt = bo.make("MOBO", SP, n_obj=2, DoE_size=n, eval_type=case["ev"], obj_fun=funs, n_job=nj)
    np.random.seed(8)
    X = opt.ask()
    ctx.eq(len(X), n, "number of candidates")
    with parallel_backend("threading"):
        try:
            vals = opt.evaluate(X)
        finally:
            with g.cv:
                g.open = True
                g.cv.notify_all()
    ctx.step(f"candidates {X}, workers {nj}, objective {case['which']} finished in the order {g.order}")
    ctx.eq([tuple(map(float, v)) for v in vals], [(plain[0](x), plain[1](x)) for x in X], "values of the candidates")
    opt.tell(X, vals)
    ids = [bo.key([x[m] for m in NM] if isinstance(x, dict) else x) for x in X]
    ctx.eq([(bo.key(r), tuple(map(float, v))) for r, v in zip(opt.data.tolist(), opt.data.fitness)], [(i, (plain[0](x), plain[1](x))) for i, x in zip(ids, X)], "recorded points and values")
    ctx.state(("mo", n, nj, case["ev"], case["which"], tuple(g.order)))
    return g


def run_case(case, ctx):
    if case["k"] in ("jobs", "mo"):
        n = case["n"]
        bads = [None] if case["bad"] == "none" else range(n)
        for bad in bads:
            script = []
            while True:
                ctx.new_trace()
                g = (run_jobs if case["k"] == "jobs" else run_mo)(case, ctx, script, bad)
                ctx.trace()
                taken, widths = g.order, g.widths
                i = len(taken) - 1
                while i >= 0 and taken[i] + 1 >= widths[i]:
                    i -= 1
                if i < 0 or case["bad"] == "raise" and len(taken) < n and not script and False:
                    break
                script = taken[:i] + [taken[i] + 1]
        ctx.sample(f"last finishing order {g.order}")
    else:
        n = case["n"]
        calls, bad = [], case["bad"]
        fails = [] if bad is None else [bad] if bad % 2 else [bad, bad + 1]  # the failed evaluations of the run
        if bad is not None and bad < 4 and bad % 2 == 0:
            fails = [k for k in range(4) if k != bad]
        fval = ["nan", "inf", "-inf"][(bad or 0) % 3]

        def batch(X):
            k0 = sum(map(len, calls))
            calls.append([x for x in X])
            v = [float(fval) if k0 + k in fails else f_of(x) for k, x in enumerate(X)]
            return {"list": v, "tuple": tuple(v), "array": np.array(v), "column": np.array(v).reshape(-1, 1)}[case["ret"]]

        opt = bo.make("ParallelBO", SP, n_point=n, DoE_size=4, eval_type=case["ev"], parallel_obj_fun=batch, max_FEs=4 + 2 * n)
        np.random.seed(3)
        r = opt.run()
        ctx.step(f"{calls}, failed (number of the evaluation): {fails} {fval}")
        ctx.eq([len(c) for c in calls], [4, n, n], "sizes of the batches handed to the objective")
        ctx.eq(opt.eval_count, 4 + 2 * n, "number of evaluations")
        flat = [x for k, x in enumerate(x for c in calls for x in c) if k not in fails]
        ctx.eq([bo.key(row) for row in opt.data.tolist()], [bo.key([x[m] for m in NM] if isinstance(x, dict) else x) for x in flat], "recorded points")
        ctx.eq([float(v) for v in np.ravel(opt.data.fitness)], [f_of(x) for x in flat], "recorded values")
        ctx.eq(float(np.ravel(r[1])[0]), min(f_of(x) for x in flat), "returned value")
        ctx.state((n, case["ev"], case["ret"], bad))
        ctx.trace()
