"""Reference model of the observation history, and the operations that drive model and implementation alike."""
import copy
import math
import os

import numpy as np

from mc import bo, spaces

SPECS = [["d", ["x", "", "z"]], ["r", -2.0, 2.0], ["i", 0, 8], ["b"]]
NM = ["d_0", "r_1", "i_2", "b_3"]
POINTS = [["x", 0.5, 0, False], ["", -2.0, 8, True], ["z", 0.25, 3, False], ["x", 1.0, 0, True], ["z", 0.0, 7, False], ["", 1.5, 2, True]]
MANY = [[("x", "", "z")[i % 3], -2.0 + 4.0 * i / 250, i % 9, i % 2 == 1] for i in range(251)]  # distinct points, for long histories
NAN, INF = float("nan"), float("inf")


def dec(v):
    """JSON-able fitness -> float(s)"""
    if isinstance(v, list):
        return tuple(dec(u) for u in v)
    return {"nan": NAN, "inf": INF, "-inf": -INF}.get(v, v)


def ok(f):
    return all(math.isfinite(u) for u in f) if isinstance(f, tuple) else math.isfinite(f)


class Model:
    """what the optimizer must have recorded"""

    def __init__(self, minimize=True, n_obj=1):
        self.data, self.evals, self.iters, self.hist = [], 0, 0, []
        self.minimize, self.n_obj = minimize, n_obj

    def tell(self, xs, fs):
        self.evals += len(xs) * self.n_obj
        self.data += [(x, f) for x, f in zip(xs, fs) if ok(f)]
        self.iters += 1
        if self.data and self.n_obj == 1:
            self.hist.append(self.best())

    def best(self):
        return (min if self.minimize else max)(f for _, f in self.data)

    @property
    def flat(self):
        return self.n_obj == 1 and len(self.data) > 5 and len({f for _, f in self.data}) == 1


def fmt(rows, ev, how):
    """the told points in one of the accepted input formats"""
    from bayes_optim import Solution

    rows = copy.deepcopy(rows)
    if how == "sol":
        return Solution(rows, var_name=NM)
    if ev == "dict":
        nm = NM if how != "perm" else NM[::-1]
        return [{n: r[NM.index(n)] for n in nm} for r in rows]
    return rows


def fmt_f(fs, how):
    return np.array(fs, dtype=float) if how in ("perm",) else list(fs)


def compare_data(opt, m, ctx):
    """the recorded data agree with the model"""
    if not m.data:
        ctx.check(not hasattr(opt, "data") or opt.data is None or len(opt.data) == 0, lambda: f"data recorded although every evaluation failed: {getattr(opt, 'data', None)}")
        return
    ctx.check(hasattr(opt, "data"), "no data recorded")
    rows = opt.data.tolist()
    ctx.check(len(rows) == len(m.data), lambda: f"{len(rows)} observations recorded, expected {len(m.data)}: {rows}")
    ctx.eq(list(opt.data.var_name), NM, "the names of the recorded columns")
    for i, ((x, f), r) in enumerate(zip(m.data, rows)):
        ctx.check(len(r) == len(x) and all(spaces.same(a, b) for a, b in zip(r, x)), lambda: f"observation {i} is recorded as {r!r}, told {x!r}")
        got = np.ravel(opt.data.fitness[i]).tolist()
        want = list(f) if isinstance(f, tuple) else [f]
        ctx.check(got == [float(w) for w in want], lambda: f"the objective value of observation {i} {x!r} is recorded as {got}, told {want}")
        ctx.check(int(np.ravel(opt.data.n_eval[i])[0]) == 1, lambda: f"observation {i} was told once but has n_eval={opt.data.n_eval[i]}")
