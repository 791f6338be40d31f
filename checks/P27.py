"""P27: model-based proposals come from a surrogate of all recorded data and maximize the acquisition function."""
import itertools

import numpy as np

from mc import bo, rng, spaces, spy, tells
from mc.models import Peak, SmoothPeak, _dist
from mc.tells import NM, POINTS, SPECS, dec

LEVEL = "model_checking"
ASSUMPTIONS = ["the surrogate is a stand-in that records what it is trained on", "fewer than six observations with identical values"]
CHUNK = 8
BATCH = [[0.5], [-1.0], ["nan"], [2.0, -3.0], ["inf", 1.0], [1.0, "nan"], [4.0, 4.0], [1e6, -1e6], [3e-9, -1e-9, 2e-9, 7e-9, 5e-9, 4e-9]]
CFG = [("BO", "list"), ("BO", "dict"), ("ParallelBO", "list"), ("NoisyBO", "dict"), ("SelfAdaptiveBO", "list"), ("MultiAcquisitionBO", "dict"), ("AnnealingBO", "list")]


def BOUNDS(tier):
    return f"7 optimizer configurations, both directions, all sequences of {2 if tier == 'quick' else 3} batches over {BATCH}, followed by a model-based request (with and without a fixed variable, one or two candidates), on a mixed space and on a real-valued one; two objectives in all directions, all sequences of as many batches out of {len(MOB)}; 3 outcomes of the random draws; histories of {LONG} observations in batches of 1, 23 and 90 with the best value, an outlier and failures among the first"


def cases(tier):
    out = []
    for (cls, ev), mn, sp in itertools.product(CFG, (True, False), ("mixed", "real")):
        for a in range(len(BATCH)):
            out.append({"cls": cls, "ev": ev, "min": mn, "sp": sp, "a": a, "d": 2 if tier == "quick" else 3})
    for (cls, ev), mn, sp, b in itertools.product(CFG, (True, False), ("mixed", "real"), (1, 23, 90)):
        out.append({"cls": cls, "ev": ev, "min": mn, "sp": sp, "long": b})
    for mi, b in itertools.product(itertools.product((True, False), repeat=2), (1, 23, 90)):
        out.append({"k": "mo", "mi": list(mi), "ev": "list", "long": b})
    for mi, ev, a in itertools.product(itertools.product((True, False), repeat=2), ("list", "dict"), range(len(MOB))):
        out.append({"k": "mo", "mi": list(mi), "ev": ev, "a": a, "d": 2 if tier == "quick" else 3})
    return out


MOB = [[[0.5, 1.0]], [["nan", 1.0]], [[2.0, -3.0], [1.0, 4.0]], [[1.0, 1.0], [0.25, "inf"]], [[3.0, 0.5], [0.5, 3.0], [2.0, 2.0]], [[1e6, -1e-3], [-1e6, 2e-3]]]


def history(c, values):
    """a long history in batches of the given size: the best value, an outlier of the other side and failures come early"""
    v = [values(i) for i in range(LONG)]
    return [v[i : i + c["long"]] for i in range(0, LONG, c["long"])]


LONG = 91
RMANY = [[-2.0 + 4.0 * i / 97, 8.0 * ((i * 31) % 97) / 97] for i in range(97)]


class RecMO:
    """two objectives, in the direction of maximization: the first prefers z1, the second z2"""

    def __init__(self, z1, z2):
        self.z, self.is_fitted, self.log, self.n_fit = (z1, z2), False, None, 0

    def fit(self, X, y):
        self.is_fitted, self.n_fit = True, self.n_fit + 1
        self.seen = [list(r) for r in X.tolist()], np.array(y, dtype=float).copy()
        return self

    def at(self, r):
        return [0.3 - 0.5 * _dist(r, self.z[0]), 0.2 - 0.7 * _dist(r, self.z[1])]

    SD = [0.3, 0.5]

    def predict(self, X, eval_MSE=False):
        rows = [list(r) for r in X] if isinstance(X, list) else [list(r) for r in np.atleast_2d(np.array(X, dtype=object))]
        if eval_MSE and self.log is not None:
            self.log += rows
        m = np.array([self.at(r) for r in rows], dtype=float)
        return (m, np.tile(np.square(self.SD), (len(rows), 1))) if eval_MSE else m


def run_mo(c, ctx):
    from checks.P20 import ehvi

    long = "long" in c
    pts = tells.MANY if long else POINTS
    seqs = [history(c, lambda i: [1e3, -2.0] if i == 2 else [-3.0, 50.0] if i == 3 else [1.0, "nan"] if i % 7 == 4 else [((i * 37) % 91) / 9, ((i * 17) % 89) / 7])] if long else [[MOB[c["a"]]] + list(rest) for rest in itertools.product(MOB, repeat=c["d"] - 1)]
    for seq in seqs:
        for script in range(1 if long else 3):
            data, k = [], 0
            env = rng.Env({0: 0, 1: 2} if script == 1 else ({2: 0, 5: 2} if script == 2 else {}))
            ctx.new_trace()
            with rng.controlled(env):
                m = RecMO(["z", 1.75, 5, True], ["x", -1.0, 0, False])
                opt = bo.make("MOBO", SPECS, names=NM, model=m, eval_type=c["ev"], minimize=c["mi"], n_obj=2, DoE_size=3, max_FEs=40, aq={"optimizer": "MIES", "max_FEs": 12, "n_restart": 2, "wait_iter": 2})
                for b in seq:
                    fs = [dec(v) for v in b]
                    xs = [pts[(k + j) % len(pts)] for j in range(len(fs))]
                    k += len(fs)
                    opt.tell([dict(zip(NM, x)) for x in xs] if c["ev"] == "dict" else [list(x) for x in xs], fs)
                    data += [(x, f) for x, f in zip(xs, fs) if tells.ok(f)]
                    ctx.step(f"tell({xs}, {fs})")
                    if not data:
                        continue
                    ctx.check(m.n_fit > 0, "the surrogate was not trained although data are recorded")
                    X, y = m.seen
                    ctx.check([bo.key(x) for x in X] == [bo.key(x) for x, _ in data] and y.shape == (len(data), 2), lambda: f"the surrogate was trained on {X}, {y.tolist()}, the recorded data are {data}")
                    for j in range(2):
                        f = np.array([v[j] for _, v in data]) * (-1.0 if c["mi"][j] else 1.0)
                        if np.ptp(f) > 0:
                            s = np.sum((y[:, j] - y[:, j].mean()) * (f - f.mean())) / np.sum((f - f.mean()) ** 2)
                            ctx.check(s > 0 and np.allclose(y[:, j], y[:, j].mean() + s * (f - f.mean()), rtol=1e-6, atol=1e-9 * np.max(np.abs(y))), lambda: f"objective {j}: the surrogate was trained on the values {y[:, j].tolist()}, which do not order like {f.tolist()}")
                if not data:
                    continue
                for fixed in () if long else (None, {NM[1]: POINTS[3][1]}, {NM[3]: POINTS[0][3], NM[0]: POINTS[2][0]}):
                    m.log = []
                    X = opt.ask(1, fixed=fixed)
                    log, m.log = m.log, None
                    rows = bo.validate(X, SPECS, NM, c["ev"], ctx, fixed)
                    ctx.step(f"ask(1, {fixed}) -> {rows}, {len(log)} acquisition evaluations")
                    ctx.check(len(log) > 0, "the proposal does not depend on the surrogate")
                    if fixed:
                        ctx.check(all(len(r) == len(NM) and all(spaces.same(r[NM.index(q)], v) for q, v in fixed.items()) for r in log), lambda: f"with {fixed} fixed the surrogate was asked about {log}")
                    Y, ref = m.seen[1].tolist(), [float(v) for v in np.ravel(opt.ref_point)]
                    val = [ehvi(Y, ref, m.at(r), m.SD) for r in log]
                    top = max(val)
                    tops = [bo.key(r) for r, v in zip(log, val) if v >= top * (1 - 1e-2) - 1e-3]
                    if not any(close(t, bo.key(x)) for t in tops for x, _ in data):
                        ctx.check(any(close(t, bo.key(r)) for t in tops for r in rows), lambda: f"the expected hypervolume improvement is maximal at {tops} but {rows} is proposed")
                ctx.check([bo.key(r) for r in opt.data.tolist()] == [bo.key(x) for x, _ in data], "the recorded data changed by asking")
            ctx.state((c["ev"], c["mi"], repr(seq), script))
            ctx.trace()


class Rec(Peak):
    def fit(self, X, y):
        self.seen = ([list(r) for r in X.tolist()] if hasattr(X, "tolist") else [list(r) for r in X], np.array(y, dtype=float).ravel().copy(), np.shape(y))
        return super().fit(X, y)


RSPEC = [["r", -2.0, 2.0], ["r", 0.0, 8.0]]
RNM = spaces.names(RSPEC)
RPOINTS = [[0.5, 0.0], [-2.0, 8.0], [0.25, 3.0], [1.0, 1.0], [0.0, 7.0], [1.5, 2.0]]


def check_fit(opt, m, data, ctx):
    ctx.check(m.n_fit > 0 and hasattr(m, "seen"), "the surrogate was not trained although data are recorded")
    X, y, _ = m.seen
    ctx.check([bo.key(x) for x in X] == [bo.key(x) for x, _ in data], lambda: f"the surrogate was trained on {X}, the recorded data are {data}")
    f = np.array([v for _, v in data])
    ctx.check(len(y) == len(f), lambda: f"{len(y)} values for {len(f)} points")
    if np.ptp(f) > 1e-12 * np.max(np.abs(f)):
        s = np.sum((y - y.mean()) * (f - f.mean())) / np.sum((f - f.mean()) ** 2)
        ctx.check(s > 0 and np.allclose(y, y.mean() + s * (f - f.mean()), rtol=1e-6, atol=1e-9 * np.max(np.abs(y))), lambda: f"the surrogate was trained on the values {y.tolist()}, which do not order like the recorded {f.tolist()}")
    else:
        ctx.check(np.std(y) < 1e-6, lambda: f"the surrogate was trained on {y.tolist()} for the recorded {f.tolist()}")
    return y


def one(c, seq, ctx):
    specs, nm, pts = (SPECS, NM, POINTS) if c["sp"] == "mixed" else (RSPEC, RNM, RPOINTS)
    z = ["z", 1.75, 5, True] if c["sp"] == "mixed" else [1.75, 5.0]
    long = "long" in c
    pts = (tells.MANY if c["sp"] == "mixed" else RMANY)[::-1] if long else pts
    for script in range(1 if long else 3):
        data, k = [], 0
        env = rng.Env({0: 0, 1: 2} if script == 1 else ({2: 0, 5: 2} if script == 2 else {}))
        ctx.new_trace()
        with rng.controlled(env):
            m = Rec(z, c["min"])
            opt = bo.make(c["cls"], specs, names=nm, model=m, eval_type=c["ev"], minimize=c["min"], n_point=2, DoE_size=3, max_FEs=40, aq={"max_FEs": 9, "n_restart": 2, "wait_iter": 2})
            for b in seq:
                fs = [dec(v) for v in b]
                xs = [pts[(k + j) % len(pts)] for j in range(len(fs))]
                k += len(fs)
                n0 = m.n_fit
                opt.tell([dict(zip(nm, x)) for x in xs] if c["ev"] == "dict" else [list(x) for x in xs], fs)
                data += [(x, f) for x, f in zip(xs, fs) if tells.ok(f)]
                ctx.step(f"tell({xs}, {fs})")
                if data:
                    y = check_fit(opt, m, data, ctx)
            if not data:
                return
            for fixed in (None, {nm[1]: pts[3][1]}) + (({nm[3]: pts[0][3], nm[0]: pts[2][0]},) if len(nm) > 3 else ()):
                with spy.acquisitions() as log:
                    n = 1 if c["cls"] == "BO" or fixed else 2
                    X = opt.ask(n, fixed=fixed)
                rows = bo.validate(X, specs, nm, c["ev"], ctx, fixed)
                ctx.step(f"ask({n}, {fixed}) -> {rows}, {len(log)} acquisition evaluations")
                G = spy.groups(log)
                ctx.check(len(G) == n, lambda: f"{len(G)} acquisition functions were optimized for {n} candidates")
                best = (np.min if c["min"] else np.max)(y)
                for g in G:
                    for r in g:
                        ctx.check(r["model"] is m and r["minimize"] == c["min"], "the acquisition function uses another surrogate or direction than the optimizer")
                        if r["plugin"] is not None and c["cls"] != "NoisyBO":
                            ctx.check(np.isclose(r["plugin"], best if c["min"] else -best), lambda: f"the acquisition function compares with {r['plugin']}, the best value of the surrogate's data is {best}")
                        if r["plugin"] is not None and c["cls"] == "NoisyBO":
                            p = m.predict([x for x, _ in data])
                            ctx.check(np.isclose(r["plugin"], np.min(p) if c["min"] else -np.max(p)), lambda: f"the acquisition function compares with {r['plugin']}; predictions at the data: {p}")
                        if fixed:
                            ctx.check(len(r["x"]) == len(nm) and all(spaces.same(r["x"][nm.index(q)], v) for q, v in fixed.items()), lambda: f"with {fixed} fixed the acquisition function was evaluated at {r['x']}")
                    top = max(r["value"] for r in g)
                    tops = [bo.key(r["x"]) for r in g if r["value"] >= top - 1e-12 * max(1, abs(top))]
                    new = [t for t in tops if c["cls"] == "NoisyBO" or not any(close(t, bo.key(x)) for x, _ in data)]
                    if len(new) == len(tops):  # the maximizer is new: it must be proposed
                        ctx.check(any(close(t, bo.key(r)) for t in tops for r in rows), lambda: f"the acquisition function is maximal at {tops} but {rows} is proposed")
    ctx.state((c["cls"], c["ev"], c["min"], c["sp"], repr(seq)))
    ctx.trace()


def close(a, b):
    for u, v in zip(a, b):
        if isinstance(u, tuple) and isinstance(v, tuple) and u[0] == "f" and v[0] == "f":
            if not np.isclose(u[1], v[1], atol=1e-9):
                return False
        elif u != v:
            return False
    return True


def run_case(c, ctx):
    ctx.sample(c)
    if c.get("k") == "mo":
        return run_mo(c, ctx)
    if "long" in c:
        s = 1.0 if c["min"] else -1.0
        return one(c, history(c, lambda i: -5.0 * s if i == 2 else 1e3 * s if i == 3 else "nan" if i % 7 == 4 else ((i * 37) % 91) / 9), ctx)
    for rest in itertools.product(BATCH, repeat=c["d"] - 1):
        one(c, [BATCH[c["a"]]] + list(rest), ctx)
