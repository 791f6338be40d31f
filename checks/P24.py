"""P24: the random-forest surrogate - every point gets its own prediction, categories are distinguished, mean and variance are those of the trees."""
import itertools

import numpy as np

from mc import spaces

LEVEL = "model_checking"
ASSUMPTIONS = ["scikit-learn's own forest (same parameters, same seed, numerical inputs) is the reference for mean and variance", "a forest of fully grown trees without resampling interpolates distinguishable points"]
CHUNK = 2

SPACES = {
    "d_r": ([["d", ["a", "b", "c"]], ["i", 0, 1]], None),
    "r_d": ([["i", 0, 1], ["d", ["b", "a", "c"]]], None),
    "num_cat": ([["d", [10, 2, 30]], ["i", 0, 1]], None),
    "mixed_cat": ([["d", [1, "1", 2.5]], ["b"]], None),
    "bool_first": ([["b"], ["d", ["x", "y"]], ["i", 5, 6]], None),
    "two_cat": ([["d", ["p", "q"]], ["i", 0, 1], ["d", ["q", "p"]]], None),
    "ordinal": ([["i", 3, 4], ["o", ["lo", "hi"]], ["b"]], None),
    "subset": ([["s", ["u", "v"]], ["i", 0, 1]], None),
    "subset_last": ([["b"], ["s", [1, 2]]], None),
    "only_cat": ([["d", ["a", "b"]], ["d", [0, 1]], ["b"]], None),
    "numeric": ([["i", 0, 3], ["i", -1, 0]], None),
    "one": ([["d", ["a", "b", "c", "d"]]], None),
}


def BOUNDS(tier):
    return ("12 mixed spaces of 4-8 points: every assignment of values from {0, 1} (thorough: {0, 1, 7}) to the points of the space and every training subset that leaves out up to "
            f"{2 if tier == 'quick' else 4} points; predictions as list, array and solution object, alone and in batches, in two orders, with 1 and 3 threads; numerical data of 4-6 rows against the reference forest; all aggregations of two and three models over the weight grid")


def cases(tier):
    out = []
    for n in SPACES:
        npts = len(spaces.points(SPACES[n][0]))
        alpha = [0.0, 1.0] if tier == "quick" else [0.0, 1.0, 7.0]
        # the value of the first two points selects the case; the case enumerates the rest
        head = 2 if tier == "quick" else 3
        for h in itertools.product(alpha, repeat=min(head, npts)):
            out.append({"k": "interp", "sp": n, "head": list(h), "alpha": alpha})
        for m in range(0, (2 if tier == "quick" else 4) + 1):
            out.append({"k": "rows", "sp": n, "out": m})
    for ne in (2, 3, 5) if tier == "quick" else (2, 3, 5, 10, 30):
        for nobj in (1, 2):
            for leaf in (1, 2):
                out.append({"k": "ref", "ne": ne, "nobj": nobj, "leaf": leaf})
    out.append({"k": "agg"})
    return out


def forest(space, **kw):
    from bayes_optim import RandomForest

    kw.setdefault("random_state", 1)
    return RandomForest(levels=space.levels, **kw)


def sol(X, space):
    from bayes_optim.solution import Solution

    return Solution(X, var_name=space.var_name)


def forms(X, space):
    a = np.empty((len(X), len(X[0])), dtype=object)
    for i, x in enumerate(X):
        for j, v in enumerate(x):
            a[i, j] = v
    out = [("array", a), ("solution", sol(X, space))]
    if not any(isinstance(v, tuple) for v in X[0]):
        out.append(("list", [list(x) for x in X]))
    return out


def interp(case, ctx):
    specs, _ = SPACES[case["sp"]]
    space = spaces.build(specs)
    pts = spaces.points(specs)
    for rest in itertools.product(case["alpha"], repeat=len(pts) - len(case["head"])):
        y = np.array(case["head"] + list(rest), dtype=float)
        m = forest(space, n_estimators=2, bootstrap=False, min_samples_leaf=1, max_features=None)
        m.fit(sol(pts, space), y.reshape(-1, 1) if y[0] else y)
        p, v = m.predict(sol(pts, space), eval_MSE=True)
        ctx.step()
        ctx.check(np.shape(p) == (len(pts),) and np.allclose(p, y), lambda: f"fully grown trees on all points of {specs} with values {y.tolist()} predict {np.asarray(p).tolist()}: points are confused with each other")
        ctx.check(np.shape(v) == (len(pts),) and np.allclose(v, 0, atol=1e-12), lambda: f"identical trees report the uncertainty {np.asarray(v).tolist()}")
        ctx.state((case["sp"], y.tolist()))
    ctx.trace()


def rows(case, ctx):
    specs, _ = SPACES[case["sp"]]
    space = spaces.build(specs)
    pts = spaces.points(specs)
    vals = np.array([((7 * i) % 11) / 3.0 for i in range(len(pts))])
    for out in itertools.combinations(range(len(pts)), case["out"]):
        keep = [i for i in range(len(pts)) if i not in out]
        if len(keep) < 2:
            continue
        m = forest(space, n_estimators=3)
        X, y = [pts[i] for i in keep], vals[keep]
        m.fit(sol(X, space), y)
        base = {}
        for i, x in enumerate(pts):
            for nme, one in forms([x], space):
                p, v = m.predict(one, eval_MSE=True)
                q = m.predict(one)
                ctx.step()
                ctx.check(np.allclose(p, q), lambda: f"{x}: the prediction is {p} with and {q} without the uncertainty")
                p, v = float(np.ravel(p)[0]), float(np.ravel(v)[0])
                ctx.check(y.min() - 1e-9 <= p <= y.max() + 1e-9 and v >= 0, lambda: f"{x}: prediction {p}, variance {v} with observations {y.tolist()}")
                if i in base:
                    ctx.check(np.allclose(base[i], (p, v)), lambda: f"{x}: predicted {base[i]} as array but {(p, v)} as {nme}")
                base[i] = (p, v)
        for order in (list(range(len(pts))), list(range(len(pts)))[::-1], [j for i in range(len(pts)) for j in (i, 0)]):
            for nme, Q in forms([pts[i] for i in order], space):
                p, v = m.predict(Q, eval_MSE=True)
                ctx.step()
                ctx.check(np.allclose(p, [base[i][0] for i in order]) and np.allclose(v, [base[i][1] for i in order]),
                          lambda: f"the points {order} of {specs} are predicted differently in a batch ({nme}) than alone: {np.ravel(p).tolist()} vs {[base[i][0] for i in order]}")
        ctx.state((case["sp"], out))
        # the same training data in the other forms, and prediction by several threads
        for nme, T in forms(X, space):
            m2 = forest(space, n_estimators=3, n_jobs=3)
            m2.fit(T, y.reshape(-1, 1))
            p, v = m2.predict(sol(pts, space), eval_MSE=True)
            ctx.check(np.allclose(p, [base[i][0] for i in range(len(pts))]) and np.allclose(v, [base[i][1] for i in range(len(pts))]), lambda: f"training data given as {nme} lead to different predictions")
        # a later fit replaces the data completely
        m.fit(sol(X[::-1], space), np.full(len(X), 4.0))
        ctx.check(np.allclose(m.predict(sol(pts, space)), 4.0), "a forest fitted again still predicts from the old data")
    ctx.trace()


def ref(case, ctx):
    from sklearn.ensemble import RandomForestRegressor

    from bayes_optim import RandomForest

    for n in (4, 6):
        X = np.array([[((3 * i) % n) / 2.0, float(i % 3), -1.5 * i] for i in range(n)])
        for ys in itertools.product([0.0, 1.0, 4.0], repeat=4):
            y = np.array(list(ys) + [2.0, 3.0])[:n]
            if case["nobj"] == 2:
                y = np.stack([y, y[::-1] * 2 + 1], axis=1)
            kw = dict(n_estimators=case["ne"], min_samples_leaf=case["leaf"], max_features=5 / 6, random_state=3)
            m = RandomForest(levels={}, **kw)
            r = RandomForestRegressor(**kw)
            m.fit(X, y)
            r.fit(X, y)
            Q = np.vstack([X, X * 0.5 + 0.1, X[::-1] - 1])
            p, v = m.predict(Q, eval_MSE=True)
            trees = np.stack([t.predict(Q) for t in r.estimators_], axis=-1)
            ctx.step(n=len(Q))
            ctx.check(np.shape(p) == np.shape(r.predict(Q)) and np.allclose(p, r.predict(Q)), lambda: f"prediction {p} differs from the mean of the trees {r.predict(Q)}")
            ctx.check(np.shape(v) == np.shape(p) and np.allclose(v, np.var(trees, axis=-1, ddof=1)), lambda: f"uncertainty {v} is not the variance of the trees {np.var(trees, axis=-1, ddof=1)}")
            ctx.state((n, ys))
    ctx.trace()


class Fixed:
    def __init__(self, a, b, col):
        self.a, self.b, self.col = a, b, col

    def predict(self, X, eval_MSE=False):
        y = np.array([self.a + self.b * i for i in range(len(X))])
        v = np.array([0.5 + self.b * i for i in range(len(X))])
        if self.col:
            y, v = y.reshape(-1, 1), v.reshape(-1, 1)
        return (y, v) if eval_MSE else y


def agg(case, ctx):
    from bayes_optim.surrogate import SurrogateAggregation

    G = [0.0, 0.25, 1.0, 2.0]
    for k in (2, 3):
        for w in itertools.product(G, repeat=k):
            for col in (False, True):
                ms = [Fixed(1.0 + 3 * j, 0.5 + j, col) for j in range(k)]
                m = SurrogateAggregation(ms, weights=list(w))
                for n in (1, 3):
                    X = [[0.0]] * n
                    p, v = m.predict(X, eval_MSE=True)
                    q = m.predict(X)
                    ey = sum(wi * np.ravel(s.predict(X)) for wi, s in zip(w, ms))
                    ev = sum(wi**2 * np.ravel(s.predict(X, True)[1]) for wi, s in zip(w, ms))
                    ctx.step()
                    ctx.check(np.allclose(np.ravel(p), ey) and np.allclose(np.ravel(q), ey) and np.allclose(np.ravel(v), ev), lambda: f"weights {w}: aggregated {p}, {v}; expected {ey}, {ev}")
                    ctx.state((w, n, col))
    ctx.trace()


def run_case(case, ctx):
    ctx.sample(case)
    {"interp": interp, "rows": rows, "ref": ref, "agg": agg}[case["k"]](case, ctx)
