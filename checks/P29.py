"""P29: the Gaussian-process surrogate is the kriging predictor of its data, and its gradient is the derivative of its predictions."""
import itertools
import math

import numpy as np

LEVEL = "model_checking"
ASSUMPTIONS = ["noise-free data or a nugget of 1e-6 (the predictor under estimated noise is not covered)", "given correlation lengths for the comparison with the closed form; estimated ones for interpolation and gradients", "points at least half a unit apart"]
CHUNK = 2
SEED = 1
G1 = [0.0, 0.5, 1.5, 2.0, 3.0]
G2 = [[0.0, 0.0], [1.0, 0.25], [0.25, 1.0], [1.5, 1.5], [-1.0, 0.75], [0.5, -1.0]]
Q1 = [-0.7, 0.2, 0.9, 1.7, 2.4, 3.6]
Q2 = [[0.3, 0.4], [-0.6, 0.1], [1.2, 1.9], [2.3, -1.3]]
Y = [-1.0, 0.0, 2.5]


def BOUNDS(tier):
    return (f"all subsets of {len(G1)} positions on a line and {len(G2)} in the plane with 3-{4 if tier == 'quick' else 5} points and all values from {Y} (quick tier: a quarter of the 4-point data sets, a fifth of those with estimated parameters); constant, linear, fixed and quadratic trends, 3 correlation functions, 2 correlation lengths, with and without nugget; "
            "predictions alone/in batches/all orders, as list, array and solution object, gradients at all query points against central differences; one and two targets")


def cases(tier):
    out = []
    for corr, tr, nug in itertools.product(("matern", "squared_exponential", "absolute_exponential"), ("const", "linear", "fixed", "quad"), (0, 1e-6)):
        for dim in (1, 2):
            if dim == 2 and tr == "quad":
                continue
            for th in (0.3, 2.0):
                out.append({"k": "blup", "corr": corr, "tr": tr, "nug": nug, "dim": dim, "th": th, "n": 4 if tier == "quick" else 5, "full": tier != "quick"})
    for corr, mode, lik in itertools.product(("matern", "squared_exponential"), ("noiseless", "noisy", "estim"), ("concentrated",)):
        for dim in (1, 2):
            out.append({"k": "fit", "corr": corr, "mode": mode, "dim": dim, "full": tier != "quick"})
    for corr, mode, dim in itertools.product(("matern", "squared_exponential"), ("noiseless", "noisy"), (1, 2)):
        out.append({"k": "fit", "corr": corr, "mode": mode, "dim": dim, "lik": "restricted", "full": tier != "quick"})
    for corr, tr, nug, dim in itertools.product(("matern", "squared_exponential"), ("const", "linear", "fixed"), (0, 1e-6), (1, 2)):
        out.append({"k": "two", "corr": corr, "tr": tr, "nug": nug, "dim": dim, "full": tier != "quick"})
    for n_obj, dim in itertools.product((1, 2), (1, 2)):
        out.append({"k": "sk", "n_obj": n_obj, "dim": dim, "full": tier != "quick"})
    return out


def kernel(corr, th, A, B):
    D = np.abs(A[:, None, :] - B[None, :, :])
    if corr == "squared_exponential":
        return np.exp(-th * np.sum(D**2, axis=2))
    if corr == "absolute_exponential":
        return np.exp(-th * np.sum(D, axis=2))
    d = np.sqrt(3 * th * np.sum(D**2, axis=2))
    return (1 + d) * np.exp(-d)


def basis(tr, X):
    one = np.ones((len(X), 1))
    if tr in ("const", "fixed"):
        return one
    if tr == "linear":
        return np.c_[one, X]
    return np.c_[one, X, X**2]


def blup(corr, th, tr, nug, X, y, Q):
    """the textbook predictor; the variance up to the factor sigma^2"""
    F, f = basis(tr, X), basis(tr, Q)
    R = kernel(corr, th, X, X) + nug * np.eye(len(X))
    r = kernel(corr, th, Q, X)
    Ri = np.linalg.inv(R)
    if tr == "fixed":
        b = np.array([[0.75]])
        u = 0.0
    else:
        b = np.linalg.solve(F.T @ Ri @ F, F.T @ Ri @ y)
        U = f - r @ Ri @ F
        u = np.einsum("ij,jk,ik->i", U, np.linalg.inv(F.T @ Ri @ F), U)
    mean = f @ b + r @ Ri @ (y - F @ b)
    var = 1 - np.einsum("ij,jk,ik->i", r, Ri, r) + u
    return mean, var


def mk(corr, tr, nug, dim, thL, thU, estim=False, **kw):
    from bayes_optim.surrogate import GaussianProcess, trend

    mean = {"const": lambda: trend.constant_trend(dim), "linear": lambda: trend.linear_trend(dim), "fixed": lambda: trend.constant_trend(dim, beta=0.75), "quad": lambda: trend.quadratic_trend(dim)}[tr]()
    par = dict(mean=mean, corr=corr, theta0=[math.sqrt(thL * thU)] * dim, thetaL=[thL] * dim, thetaU=[thU] * dim, nugget=nug, noise_estim=estim, optimizer="BFGS", wait_iter=2, random_start=2, likelihood="concentrated", eval_budget=40, random_state=1)
    par.update(kw)
    return GaussianProcess(**par)


def datasets(dim, nmin, nmax, tr="const"):
    P = [[g] for g in G1] if dim == 1 else G2
    need = {"const": 2, "fixed": 1, "linear": dim + 2, "quad": 4}[tr]
    for n in range(max(nmin, need), nmax + 1):
        for idx in itertools.combinations(range(len(P)), n):
            X = np.array([P[i] for i in idx])
            if np.linalg.matrix_rank(basis(tr, X)) < basis(tr, X).shape[1]:
                continue
            for ys in itertools.product(Y, repeat=n):
                if len(set(ys)) == 1:
                    continue
                yield X, np.array(ys)


def queries(dim):
    return np.array([[q] for q in Q1]) if dim == 1 else np.array(Q2)


def same_everywhere(m, Q, ctx, what, batches=True):
    """batch, single, reordered and differently wrapped queries agree"""
    from bayes_optim.solution import Solution

    p, v = [np.asarray(a, dtype=float) for a in m.predict(Q, eval_MSE=True)]
    p, v = p.reshape(len(Q), -1), v.reshape(len(Q), -1)
    ctx.check(np.all(np.isfinite(p)) and np.all(np.isfinite(v)) and np.all(v >= 0), lambda: f"{what}: prediction {p.tolist()}, uncertainty {v.tolist()}")
    ctx.check(np.allclose(np.asarray(m.predict(Q)).reshape(p.shape), p), lambda: f"{what}: the prediction depends on whether the uncertainty is asked for")
    for i in range(len(Q)):
        a, b = m.predict(Q[[i]], eval_MSE=True)
        ctx.check(np.allclose(np.ravel(a), p[i], atol=1e-9) and np.allclose(np.ravel(b), v[i], atol=1e-9), lambda: f"{what}: {Q[i]} is predicted {np.ravel(a)}, {np.ravel(b)} alone and {p[i]}, {v[i]} in a batch")
        ctx.step()
    a, b = m.predict(Q[::-1], eval_MSE=True)
    if batches:
        for size in range(1, len(Q) + 2):
            a2, b2 = [np.asarray(z, dtype=float) for z in m.predict(Q, eval_MSE=True, batch_size=size)]
            a3 = np.asarray(m.predict(Q, batch_size=size), dtype=float)
            ctx.check(a2.size == p.size and a3.size == p.size and b2.size == v.size and np.allclose(a2.reshape(p.shape), p) and np.allclose(a3.reshape(p.shape), p) and np.allclose(b2.reshape(v.shape), v), lambda: f"{what}: in batches of {size} the predictions are {a2.tolist()}, {b2.tolist()} instead of {p.tolist()}, {v.tolist()}")
            ctx.step()
    ctx.check(np.allclose(np.asarray(a).reshape(p.shape), p[::-1]) and np.allclose(np.asarray(b).reshape(v.shape), v[::-1]), lambda: f"{what}: the predictions depend on the order of the points")
    return p, v


def hessian(m, Q, ctx, what):
    """second derivatives of the mean (squared-exponential correlation only: the others are not implemented)"""
    h = 1e-5
    for x in Q:
        H = np.asarray(m.Hessian(x[None, :]), dtype=float)
        num = np.array([(np.ravel(m.gradient((x + e)[None, :])[0]) - np.ravel(m.gradient((x - e)[None, :])[0])) / (2 * h) for e in h * np.eye(len(x))])
        ctx.step()
        ctx.check(H.shape == num.shape and np.all(np.abs(H - num) < 1e-3 * (1 + np.max(np.abs(num)))), lambda: f"{what}: at {x} the Hessian is {H.tolist()}, differences give {num.tolist()}")


def gradient(m, Q, ctx, what, tol=1e-4, by_target=False):
    h = 1e-5
    for x in Q:
        gy, gv = m.gradient(x[None, :])
        gy, gv = np.asarray(gy, dtype=float), np.asarray(gv, dtype=float)
        num_y, num_v = [], []
        for j in range(len(x)):
            e = np.zeros(len(x))
            e[j] = h
            a, b = m.predict((x + e)[None, :], eval_MSE=True)
            c, d = m.predict((x - e)[None, :], eval_MSE=True)
            num_y.append((np.ravel(a) - np.ravel(c)) / (2 * h))
            num_v.append((np.ravel(b) - np.ravel(d)) / (2 * h))
        num_y, num_v = np.array(num_y), np.array(num_v)  # dim x targets
        n_t = num_y.shape[1]
        ctx.check(gy.size == num_y.size and gv.size == num_v.size, lambda: f"{what}: gradients of shapes {gy.shape}, {gv.shape}")
        gy = gy.reshape(n_t, len(x)).T if by_target else gy.reshape(len(x), n_t)
        gv = gv.reshape(n_t, len(x)).T if by_target else gv.reshape(len(x), n_t)
        ctx.step()
        sy, sv = 1 + np.max(np.abs(num_y)), 1 + np.max(np.abs(num_v))
        ctx.check(np.all(np.abs(gy - num_y) < tol * sy), lambda: f"{what}: at {x} the gradient of the mean is {gy.ravel()}, differences give {num_y.ravel()}")
        clipped = np.any(np.ravel(m.predict(x[None, :], eval_MSE=True)[1]) <= 0)  # negative variances are set to zero
        ctx.check(clipped or np.all(np.abs(gv - num_v) < 10 * tol * sv), lambda: f"{what}: at {x} the gradient of the variance is {gv.ravel()}, differences give {num_v.ravel()}")


def mean_gradient_at_data(m, X, ctx, what):
    h = 1e-6
    for x in X:
        gy = np.ravel(m.gradient(x[None, :])[0])
        num = np.array([np.ravel(m.predict((x + e)[None, :]) - m.predict((x - e)[None, :]))[0] / (2 * h) for e in h * np.eye(len(x))])
        ctx.step()
        ctx.check(np.all(np.abs(gy - num) < 1e-2 * (1 + np.max(np.abs(num)))), lambda: f"{what}: at the data point {x} the gradient of the mean is {gy}, differences give {num}")


def run_two(c, ctx):
    """two targets: one correlation function, each target predicted as if alone"""
    Q = queries(c["dim"])
    for k, (X, y) in enumerate(datasets(c["dim"], 4, 4, c["tr"])):
        if k % (2 if c["full"] else 8):
            continue
        np.random.seed(SEED)
        m = mk(c["corr"], c["tr"], c["nug"], c["dim"], 0.7, 0.7)
        Y2 = np.stack([y, 1 - 2 * np.cos(np.arange(len(y)) + y)], axis=1)
        m.fit(X, Y2)
        what = f"two targets, {c['corr']}, {c['tr']} trend, nugget {c['nug']}, X={X.tolist()}, y={Y2.tolist()}"
        p, v = same_everywhere(m, Q, ctx, what)
        ctx.check(p.shape == (len(Q), 2) and v.shape == p.shape, lambda: f"{what}: shapes {p.shape}, {v.shape}")
        ratio = float(np.max(np.ravel(m.noise_var)[0] / np.ravel(m.sigma2)))
        if ratio < 1e-3:
            for t in range(2):
                mean, var = blup(c["corr"], 0.7, c["tr"], ratio, X, Y2[:, [t]], Q)
                ctx.check(np.all(np.abs(p[:, t] - mean.ravel()) < (1e-6 + 20 * ratio) * (1 + np.max(np.abs(mean)))), lambda: f"{what}: predicts {p[:, t]} for target {t} at {Q.tolist()}, the kriging predictor is {mean.ravel()}")
                ok = var > 2e-2
                s = v[ok, t] / var[ok]
                ctx.check(s.size == 0 or (s.min() > 0 and s.max() / s.min() < 1.05), lambda: f"{what}: the uncertainty {v[:, t]} is not proportional to the kriging variance {var}")
        gradient(m, Q, ctx, what)
        ctx.state((c["corr"], c["tr"], c["nug"], c["dim"], X.tolist(), y.tolist()))
        ctx.trace()


def run_blup(c, ctx):
    Q = queries(c["dim"])
    for k, (X, y) in enumerate(datasets(c["dim"], 3, c["n"], c["tr"])):
        if not c["full"] and len(X) > 3 and k % 4:
            continue
        np.random.seed(SEED)
        m = mk(c["corr"], c["tr"], c["nug"], c["dim"], c["th"], c["th"])
        X0, y0 = X.copy(), y.copy()
        m.fit(X if k % 2 else X.tolist(), y.reshape(-1, 1) if k % 3 == 0 else y)
        what = f"{c['corr']}, {c['tr']} trend, nugget {c['nug']}, theta {c['th']}, X={X.tolist()}, y={y.tolist()}"
        ctx.check(np.array_equal(X, X0) and np.array_equal(y, y0), lambda: f"{what}: the caller's data were changed")
        p, v = same_everywhere(m, Q, ctx, what, batches=k % 7 == 0)
        # the model raises the nugget by itself if the likelihood cannot be computed otherwise
        ratio = float(np.ravel(m.noise_var)[0]) / float(np.ravel(m.sigma2)[0])
        if ratio > 1e-3:
            ctx.state((c["corr"], c["tr"], c["nug"], c["th"], X.tolist(), y.tolist(), "large nugget"))
            continue
        mean, var = blup(c["corr"], c["th"], c["tr"], ratio, X, y.reshape(-1, 1), Q)
        tol = 1e-6 + 20 * ratio
        ctx.check(np.all(np.abs(p - mean) < tol * (1 + np.max(np.abs(mean)))), lambda: f"{what}: predicts {p.ravel()} at {Q.tolist()}, the kriging predictor is {mean.ravel()}")
        ok = var > 2e-2
        s = v.ravel()[ok] / var[ok]
        ctx.check(s.size == 0 or (s.min() > 0 and s.max() / s.min() < 1.05), lambda: f"{what}: the uncertainty {v.ravel()} is not proportional to the kriging variance {var}")
        pt, vt = [np.ravel(a) for a in m.predict(X, eval_MSE=True)]
        ctx.check(ratio > 1e-4 or np.all(np.abs(pt - y) < 5e-2), lambda: f"{what}: predicts {pt} at the data points")
        ctx.check(ratio > 1e-4 or np.all(vt < 0.05 * max(1e-12, v.max())) or v.max() < 1e-4, lambda: f"{what}: uncertainty {vt} at the data points, up to {v.max()} elsewhere")
        if c["tr"] != "quad" and k % 3 == 0:
            gradient(m, Q, ctx, what)
            if c["corr"] == "squared_exponential":
                hessian(m, Q, ctx, what)
            if c["corr"] != "absolute_exponential" and c["nug"]:  # differentiable at the data, too
                mean_gradient_at_data(m, X, ctx, what)
        if k % 7 == 0:
            for A, B in ((Q, X), (X, Q), (Q, None)):
                R = np.asarray(m.prior_cov(A, corr=True) if B is None else m.prior_cov(A, B, corr=True), dtype=float)
                K = kernel(c["corr"], c["th"], A, A if B is None else B)
                S = np.asarray(m.prior_cov(A) if B is None else m.prior_cov(A, B), dtype=float)
                ctx.check(R.shape == K.shape and np.allclose(R, K) and np.allclose(S, K * float(np.ravel(m.sigma2)[0])), lambda: f"{what}: prior correlation {R.tolist()}, prior covariance {S.tolist()}, expected {K.tolist()}, sigma2={m.sigma2}")
                ctx.step()
        # fitting again replaces the data
        if k % 9 == 0:
            m.fit(X + 0.25, -2 * y)
            p2, _ = same_everywhere(m, Q + 0.25, ctx, what + " fitted again")
            ratio = float(np.ravel(m.noise_var)[0]) / float(np.ravel(m.sigma2)[0])
            if ratio < 1e-3:
                mean, _ = blup(c["corr"], c["th"], c["tr"], ratio, X + 0.25, -2 * y.reshape(-1, 1), Q + 0.25)
                ctx.check(np.all(np.abs(p2 - mean) < (1e-6 + 20 * ratio) * (1 + np.max(np.abs(mean)))), lambda: f"{what}: after fitting other data predicts {p2.ravel()} instead of {mean.ravel()}")
        ctx.state((c["corr"], c["tr"], c["nug"], c["th"], X.tolist(), y.tolist()))
        ctx.trace()


def run_fit(c, ctx):
    Q = queries(c["dim"])
    nug, est = {"noiseless": (0, False), "noisy": (1e-6, False), "estim": (1e-6, True)}[c["mode"]]
    for k, (X, y) in enumerate(datasets(c["dim"], 4, 4)):
        if not c["full"] and k % 5:
            continue
        np.random.seed(SEED)
        m = mk(c["corr"], "const", nug, c["dim"], 1e-2, 1e1, estim=est, random_state=1, likelihood=c.get("lik", "concentrated"))
        m.fit(X, y)
        what = f"{c['corr']}, {c['mode']}, {c.get('lik', 'concentrated')} likelihood, X={X.tolist()}, y={y.tolist()}"
        ctx.check(np.all(m.theta_ >= 1e-2 * (1 - 1e-6)) and np.all(m.theta_ <= 1e1 * (1 + 1e-6)), lambda: f"{what}: the correlation parameters {m.theta_} leave their bounds [0.01, 10]")
        p, v = same_everywhere(m, Q, ctx, what)
        gradient(m, Q, ctx, what, tol=1e-3)
        if c["mode"] != "estim" and float(np.ravel(m.noise_var)[0]) / float(np.ravel(m.sigma2)[0]) < 1e-5:
            pt = np.ravel(m.predict(X))
            ctx.check(np.all(np.abs(pt - y) < 5e-2), lambda: f"{what}: predicts {pt} at the data points")
        ctx.state((c["corr"], c["mode"], X.tolist(), y.tolist()))
        ctx.trace()


def run_sk(c, ctx):
    from bayes_optim.search_space import RealSpace
    from bayes_optim.surrogate.gaussian_process import GaussianProcessSklearn

    space = RealSpace([[-2, 4]] * c["dim"])
    Q = queries(c["dim"])
    for k, (X, y) in enumerate(datasets(c["dim"], 4, 4)):
        if k % (3 if c["full"] else 12):
            continue
        np.random.seed(SEED)
        m = GaussianProcessSklearn(space, n_obj=c["n_obj"], n_restarts_optimizer=1, length_scale_bounds=(1e-2, 1e2))
        yy = y if c["n_obj"] == 1 else np.stack([y, 3 - y[::-1]], axis=1)
        m.fit(X, yy if k % 2 or c["n_obj"] > 1 else yy.reshape(-1, 1))
        what = f"sklearn wrapper, X={X.tolist()}, y={yy.tolist()}"
        p, v = same_everywhere(m, Q, ctx, what, batches=False)
        ctx.check(p.shape == (len(Q), c["n_obj"]), lambda: f"{what}: {p.shape}")
        for t in range(c["n_obj"]):
            lo, hi = np.min(yy), np.max(yy)
            ctx.check(np.all(p[:, t] > lo - 3 * (hi - lo)) and np.all(p[:, t] < hi + 3 * (hi - lo)), lambda: f"{what}: {p}")
        gradient(m, Q, ctx, what, tol=2e-3, by_target=True)
        G = [np.asarray(g, dtype=float) for g in m.gradient(Q)]  # all points at once
        for i in range(len(Q)):
            g1 = [np.asarray(g, dtype=float) for g in m.gradient(Q[[i]])]
            ctx.check(all(a.shape[:2] == (c["n_obj"], len(Q)) and np.allclose(a[:, [i]], b, atol=1e-8) for a, b in zip(G, g1)), lambda: f"{what}: the gradients at {Q[i]} are {[g.tolist() for g in g1]} alone and {[g[:, i].tolist() for g in G]} with other points")
        if c["n_obj"] == 2:  # the targets do not influence each other
            np.random.seed(SEED)
            a = GaussianProcessSklearn(space, n_obj=1, n_restarts_optimizer=1, length_scale_bounds=(1e-2, 1e2)).fit(X, yy[:, 0])
            ctx.check(np.allclose(a.predict(Q).ravel(), p[:, 0], atol=1e-6), lambda: f"{what}: the first target is predicted {p[:, 0]} together and {a.predict(Q).ravel()} alone")
        ctx.state((c["n_obj"], X.tolist(), y.tolist()))
        ctx.trace()


def run_case(c, ctx):
    ctx.sample(c)
    {"blup": run_blup, "fit": run_fit, "sk": run_sk, "two": run_two}[c["k"]](c, ctx)
