"""P30: dimensionality reduction - data stay in the original space, the reduced space covers the box, and mapping back is exact."""
import contextlib
import itertools

import numpy as np

from mc import rng
from mc.models import SmoothPeak

LEVEL = "model_checking"
ASSUMPTIONS = ["the Gaussian process inside is replaced by a stand-in, except in a few whole runs", "mapped-back candidates may lie outside the box (the acquisition function is penalized there)"]
CHUNK = 2
BOXES = [[[-5.0, 5.0], [0.0, 1.0]], [[-5.0, 5.0], [0.0, 1.0], [2.0, 4.0]], [[-1.0, 3.0]] * 4]
PTS = {2: [[-5.0, 0.0], [5.0, 1.0], [0.5, 0.25], [-2.0, 0.75], [5.25, -0.125]],
       3: [[-5.0, 0.0, 2.0], [5.0, 1.0, 4.0], [0.5, 0.25, 3.0], [-2.0, 0.75, 2.5], [5.25, 0.125, 4.5]],
       4: [[-1.0, 3.0, 0.0, 1.0], [0.5, 0.0, 2.0, 3.0], [3.0, 3.0, -1.0, -1.0], [1.0, 0.25, 0.75, 2.0], [2.0, 1.0, 0.0, -0.5]]}
VALS = [[1.0], [-2.0, 3.0], ["nan"], ["nan", 2.0], [4.0, 4.0], ["inf", "nan"], [0.5, -1.0, 2.5]]


def BOUNDS(tier):
    return f"3 boxes of dimension 2-4, 1..dim components (and a variance share), all sequences of {3 if tier == 'quick' else 4} batches over {VALS}, both directions, requests in between; all corners of the box; the linear transformation on all rankings of 4-5 points; histories of 51 and 120 observations"


def cases(tier):
    out = []
    d = 3 if tier == "quick" else 4
    for b, box in enumerate(BOXES):
        for nc in [None, 0.9] + list(range(1, len(box) + 1)):
            for mn in (True, False):
                for a in range(len(VALS)):
                    out.append({"k": "tell", "b": b, "nc": nc, "min": mn, "a": a, "d": d, "warm": 0})
                    out.append({"k": "tell", "b": b, "nc": nc, "min": mn, "a": a, "d": d - 1, "warm": 1 + (a + mn) % 2})
                out.append({"k": "lin", "b": b, "nc": nc, "min": mn, "n": 4 if tier == "quick" else 5})
    for b, nc, mn, n in itertools.product(range(3), (None, 1), (True, False), (17, 40)):
        out.append({"k": "long", "b": b, "nc": nc, "min": mn, "n": n, "warm": (b + n) % 3})
    for b, nc, mn in itertools.product(range(3), (1, 2), (True, False)):
        out.append({"k": "run", "b": b, "nc": nc, "min": mn})
    return out


class Surrogate(SmoothPeak):
    made = []

    def __init__(self, *a, **kw):
        super().__init__(None, True)
        Surrogate.made.append(self)

    def fit(self, X, y):
        self.seen = (np.array(X, dtype=float), np.array(y, dtype=float).ravel())
        return super().fit(X, y)


@contextlib.contextmanager
def standin():
    from bayes_optim import extension

    old = getattr(extension, "GaussianProcess", None)
    if old is None:
        yield False
        return
    extension.GaussianProcess = Surrogate
    try:
        yield True
    finally:
        extension.GaussianProcess = old


def mk(c, **kw):
    from bayes_optim import RealSpace
    from bayes_optim.extension import PCABO

    return PCABO(search_space=RealSpace(BOXES[c["b"]]), DoE_size=4, n_components=c["nc"], minimize=c["min"], acquisition_optimization={"max_FEs": 6, "n_restart": 1, "wait_iter": 1}, **kw)


def dec(v):
    return {"nan": float("nan"), "inf": float("inf")}.get(v, v)


class Float:
    def __init__(self, t):
        self.t = t

    def transform(self, X):
        return np.array(self.t.transform(X), dtype=float)

    def inverse_transform(self, Z):
        return np.array(self.t.inverse_transform(Z), dtype=float)


def geometry(opt, box, data, ctx):
    """the reduced space, seen through the optimizer's own transformation"""
    if not hasattr(opt, "_pca"):
        return None
    pca = Float(opt._pca)
    dim = len(box)
    X = np.array([x for x, _ in data])
    Z = pca.transform(X)
    b = np.asarray(opt.search_space.bounds, dtype=float)
    ctx.check(Z.shape[1] == len(b), lambda: f"{Z.shape[1]} components but a reduced space of dimension {len(b)}")
    # every point of the box is represented inside the reduced space
    corners = np.array(list(itertools.product(*box)))
    ZC = pca.transform(corners)
    ctx.check(np.all(ZC >= b[:, 0] - 1e-9) and np.all(ZC <= b[:, 1] + 1e-9), lambda: f"the corner {corners[np.any((ZC < b[:, 0] - 1e-9) | (ZC > b[:, 1] + 1e-9), axis=1)][0]} of the box is mapped outside of the reduced space {b.tolist()}")
    # mapping a reduced point to the original space and back does not move it; isometric
    for z in list(Z) + [b.mean(axis=1), b[:, 0], b[:, 1]]:
        x = np.ravel(pca.inverse_transform(z))
        ctx.check(len(x) == dim and np.allclose(np.ravel(pca.transform(x[None, :])), z, atol=1e-7), lambda: f"the reduced point {z} is mapped to {x} and back to {np.ravel(pca.transform(x[None, :]))}")
        ctx.step()
    if Z.shape[1] == dim:
        ctx.check(np.allclose(np.array([np.ravel(pca.inverse_transform(z)) for z in Z]), X, atol=1e-7), lambda: "with all components the data are not recovered from their images")
    D = lambda A: np.array([[np.linalg.norm(u - v) for u in A] for v in A])
    ctx.check(np.all(D(Z) <= D(X) + 1e-7), "the reduction stretches distances")
    return Z


def one(c, seq, ctx):
    box = BOXES[c["b"]]
    dim = len(box)
    pts = PTS[dim] if c["k"] == "tell" else [[l + (u - l) * ((i * q) % 127) / 126 for q, (l, u) in zip((1, 31, 57, 83), box)] for i in range(127)]
    ctx.new_trace()
    with standin() as patched, rng.controlled(rng.Env()):
        w = c["warm"]
        opt = None if w == 2 else mk(c)
        data, k, evals = [], 0, 0
        for it, b in enumerate(seq, -1 if w else 0):
            fs = [dec(v) for v in b]
            xs = [pts[(k + j) % len(pts)] for j in range(len(fs))]
            k += len(fs)
            evals += len(fs)
            F = list(fs) if it % 2 else np.array(fs)
            if it == -1:  # data given at the start
                evals = 0
                if w == 2:
                    opt = mk(c, warm_data=([list(x) for x in xs], F))
                else:
                    opt.warm_data = ([list(x) for x in xs], F)
            else:
                opt.tell([list(x) for x in xs] if it % 2 else np.array(xs), F)
            data += [(x, f) for x, f in zip(xs, fs) if np.isfinite(f)]
            ctx.step(f"tell({xs}, {fs})")
            ctx.check(opt.eval_count == evals and opt.iter_count == it + 1, lambda: f"{opt.eval_count} evaluations in {opt.iter_count} iterations after telling {evals} in {it + 1}")
            if not data:
                ctx.check(opt.xopt is None, lambda: f"incumbent {opt.xopt} without data")
            else:
                got = np.array(opt.data.tolist(), dtype=float)
                ctx.check(got.shape == (len(data), dim) and np.allclose(got, [x for x, _ in data], atol=0), lambda: f"recorded points {got.tolist()}, told {data}")
                ctx.check(np.ravel(opt.data.fitness).tolist() == [f for _, f in data], lambda: f"recorded values {np.ravel(opt.data.fitness).tolist()}, told {data}")
                best = (min if c["min"] else max)(f for _, f in data)
                ctx.check(float(np.ravel(opt.xopt.fitness)[0]) == best and any(f == best and np.allclose(opt.xopt.tolist(), x, atol=0) for x, f in data), lambda: f"the incumbent is {opt.xopt} for {data}")
            if opt.model is not None and opt.model.is_fitted:
                Z = geometry(opt, box, data, ctx)
                if Z is not None and patched and isinstance(opt.model, Surrogate):
                    SX, Sy = opt.model.seen
                    f = np.array([v for _, v in data])
                    ctx.check(SX.shape == Z.shape and np.allclose(SX, Z, atol=1e-9), lambda: "the surrogate was trained on other points than the images of all data")
                    if np.std(f) > 1e-9:
                        s = np.sum((Sy - Sy.mean()) * (f - f.mean())) / np.sum((f - f.mean()) ** 2)
                        ctx.check(s > 0 and np.allclose(Sy, Sy.mean() + s * (f - f.mean())), lambda: f"the surrogate was trained on the values {Sy}, observed {f}")
            need = max(2, c["nc"] if isinstance(c["nc"], int) else 0)
            if len(data) >= need:
                ctx.check(opt.model is not None and opt.model.is_fitted, "enough data but no surrogate")
            X = np.array(opt.ask(), dtype=float)
            want = 1 if len(data) >= need else 4
            ctx.check(X.shape == (want, dim) and np.all(np.isfinite(X)), lambda: f"ask returned {X.tolist()}, expected {want} points of dimension {dim}")
            if len(data) < need:
                bb = np.array(box)
                ctx.check(np.all(X >= bb[:, 0]) and np.all(X <= bb[:, 1]), lambda: f"the initial design {X.tolist()} leaves the box")
            ctx.step(f"ask -> {X.tolist()}")
            ctx.state((c["b"], c["nc"], c["min"], repr(data), evals))
    ctx.trace()


def lin(c, ctx):
    from bayes_optim.extension import LinearTransform

    dim = len(BOXES[c["b"]])
    X = np.array(PTS[dim][: c["n"]])
    if isinstance(c["nc"], int) and c["nc"] > min(X.shape):
        return
    for ys in itertools.product([0.0, 1.0, -3.0], repeat=len(X)):
        y = np.array(ys)
        t, u = [LinearTransform(n_components=c["nc"], svd_solver="full", minimize=m) for m in (c["min"], not c["min"])]
        ctx.check(np.array_equal(t.inverse_transform(X), X), "an unfitted transformation changes points")
        Z = t.fit_transform(X, y)
        W = u.fit_transform(X, -y)
        ctx.check(np.allclose(np.abs(Z), np.abs(W), atol=1e-8), "maximizing y and minimizing -y lead to different components")
        ctx.check(np.allclose(t.transform(X), Z), "fit_transform differs from transform")
        back = t.inverse_transform(Z)
        ctx.check(np.allclose(t.transform(back), Z, atol=1e-8), "mapping back and forth moves points")
        if Z.shape[1] == dim:
            ctx.check(np.allclose(back, X, atol=1e-8), lambda: f"with all components {X.tolist()} is recovered as {back.tolist()}")
        for i in range(len(X)):
            ctx.check(np.allclose(t.transform(X[[i]])[0], Z[i]), "a point is transformed differently alone than with others")
        ctx.step(n=len(X))
        ctx.state((c["b"], c["nc"], c["min"], ys))
    ctx.trace()


def run(c, ctx):
    calls = []
    box = BOXES[c["b"]]

    def f(x):
        calls.append(list(map(float, x)))
        return float(sum((a - l) ** 2 for a, (l, _) in zip(x, box)))

    for B in (4, 6):
        calls.clear()
        opt = mk(c, obj_fun=f, max_FEs=B, random_seed=3)
        xopt, fopt, _ = opt.run()
        ctx.step(f"run({B}) -> {xopt}, {fopt}", n=len(calls))
        ctx.check(len(calls) == B and opt.eval_count == B, lambda: f"{len(calls)} evaluations, counted {opt.eval_count}, budget {B}")
        vals = [float(sum((a - l) ** 2 for a, (l, _) in zip(x, box))) for x in calls]
        best = (min if c["min"] else max)(vals)
        ctx.check(np.isclose(float(np.ravel(fopt)[0]), best) and any(np.allclose(xopt, x) and np.isclose(v, best) for x, v in zip(calls, vals)), lambda: f"the run returns {xopt}, {fopt}; evaluated {list(zip(calls, vals))}")
        geometry(opt, box, list(zip(calls, vals)), ctx)
        ctx.state((c["b"], c["nc"], c["min"], B))
    ctx.trace()


def run_case(c, ctx):
    ctx.sample(c)
    if c["k"] == "tell":
        for rest in itertools.product(VALS, repeat=c["d"] - 1):
            one(c, [VALS[c["a"]]] + list(rest), ctx)
    elif c["k"] == "long":  # the best and the worst value and failures come early
        s = 1.0 if c["min"] else -1.0
        v = [-5.0 * s if i == 2 else 1e3 * s if i == 3 else "nan" if i % 7 == 4 else ((i * 37) % 91) / 9 for i in range(3 * c["n"])]
        one(c, [v[i : i + c["n"]] for i in range(0, len(v), c["n"])], ctx)
    else:
        {"lin": lin, "run": run}[c["k"]](c, ctx)
