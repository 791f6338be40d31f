"""P21: acquisition functions equal their closed forms, treat both directions alike, and have consistent gradients."""
import itertools
import math

import numpy as np

LEVEL = "model_checking"
ASSUMPTIONS = ["one point at a time", "predictions for which the double-precision closed form does not overflow"]
CHUNK = 8
MU = [-2.0, -0.5, 0.0, 0.75, 1.5]
SD = [1e-3, 0.1, 1.0, 3.0]
PLUG = [-1.0, 0.0, 0.5, 2.0]
PAR = {"EI": [None], "PI": [None], "UCB": [0.1, 0.5, 1.0, 3.0], "MGFI": [0.5, 1.0, 2.0, 5.0]}


def BOUNDS(tier):
    return f"EI, PI, UCB, MGFI on all combinations of means {MU}, deviations {SD}, incumbents {PLUG}, parameters {PAR}, both directions, 3 input forms, models with and without a process variance; gradients against central differences on {9 if tier == 'quick' else 49} points of 4 smooth models; zero variance"


def cases(tier):
    out = []
    for f in PAR:
        for mn in (True, False):
            for par in PAR[f]:
                for sig in (False, True):
                    out.append({"k": "val", "f": f, "min": mn, "par": par, "sig": sig})
                    out.append({"k": "grad", "f": f, "min": mn, "par": par, "sig": sig, "n": 3 if tier == "quick" else 7})
    return out


class Const:
    def __init__(self, sig):
        if sig:
            self.sigma2 = np.array([1.0])
        self.dim = 2

    def predict(self, X, eval_MSE=False):
        n = len(np.atleast_2d(X))
        y, v = np.full(n, self.mu), np.full(n, self.sd**2)
        return (y, v) if eval_MSE else y


class Smooth:
    """mean and variance are smooth functions with known gradients"""

    def __init__(self, kind, sig, flip=1.0):
        self.kind, self.flip = kind, flip
        if sig:
            self.sigma2 = np.array([1.0])

    def _m(self, x):
        a, b = x
        return self.flip * (0.3 * a - 0.7 * b + 0.5 * a * b + 0.2 if self.kind % 2 else math.sin(a) + 0.3 * b * b - 0.4)

    def _v(self, x):
        a, b = x
        return 0.4 + 0.3 * math.sin(a + 2 * b) if self.kind < 2 else 0.2 + 0.5 * (a * a + 0.3 * b * b)

    def predict(self, X, eval_MSE=False):
        X = np.atleast_2d(np.array(X, dtype=float))
        y = np.array([self._m(x) for x in X])
        return (y, np.array([self._v(x) for x in X])) if eval_MSE else y

    def gradient(self, X):
        a, b = np.atleast_2d(X)[0]
        m = [0.3 + 0.5 * b, -0.7 + 0.5 * a] if self.kind % 2 else [math.cos(a), 0.6 * b]
        v = [0.3 * math.cos(a + 2 * b), 0.6 * math.cos(a + 2 * b)] if self.kind < 2 else [a, 0.3 * b]
        return self.flip * np.array([m]), np.array([v])


def cdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def pdf(z):
    return math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)


def closed(f, mu, sd, plug, par):
    """for minimization"""
    if f == "UCB":
        return -mu + par * sd
    z = (plug - mu) / sd
    if f == "EI":
        return (plug - mu) * cdf(z) + sd * pdf(z)
    if f == "PI":
        return cdf(z)
    return cdf(z + par * sd) * math.exp(par * (plug - mu - 1) + (par * sd) ** 2 / 2)


def make(c, model, plug):
    from bayes_optim.acquisition import acquisition_fun as A

    kw = {"model": model, "minimize": c["min"]}
    if c["f"] != "UCB":
        kw["plugin"] = plug
    if c["f"] == "UCB":
        kw["alpha"] = c["par"]
    if c["f"] == "MGFI":
        kw["t"] = c["par"]
    return getattr(A, c["f"])(**kw)


def scalar(v):
    a = np.ravel(v)
    assert a.size == 1, v
    return float(a[0])


def run_case(c, ctx):
    s = 1.0 if c["min"] else -1.0
    if c["k"] == "val":
        model = Const(c["sig"])
        forms = [[0.25, 0.5], np.array([0.25, 0.5]), np.array([[0.25, 0.5]])]
        for k, (mu, sd, plug) in enumerate(itertools.product(MU, SD, PLUG)):
            model.mu, model.sd = s * mu, sd
            crit = make(c, model, s * plug)
            got = scalar(crit(forms[k % 3]))
            want = closed(c["f"], mu, sd, plug, c["par"])
            ctx.step()
            ctx.check(abs(got - want) <= 1e-8 * max(1e-6, abs(want)) + 1e-12, lambda: f"{c['f']}({c['par']}) of mean {s * mu} sd {sd} incumbent {s * plug} minimize={c['min']} is {got}, expected {want}")
            ctx.state((c["f"], c["par"], c["min"], mu, sd, plug))
        # without an explicit incumbent the best value the model has seen is used
        if c["f"] != "UCB":
            model.y = np.array([3.0, -1.25, 0.5])
            model.mu, model.sd = s * 0.2, 0.7
            best = -1.25 if c["min"] else 3.0
            got = scalar(make(c, model, None)(forms[0]))
            want = closed(c["f"], 0.2, 0.7, s * best, c["par"])
            ctx.check(abs(got - want) <= 1e-8 * max(1e-6, abs(want)), lambda: f"{c['f']} with the default incumbent is {got}, expected {want}")
        if c["f"] in ("EI", "MGFI"):
            model.mu, model.sd = s * 0.3, 0.0
            got = scalar(make(c, model, s * 0.1)(forms[0]))
            ctx.check(got == 0, lambda: f"{c['f']} is {got} at a point without uncertainty")
        ctx.trace()
        return
    xs = np.linspace(-0.9, 0.95, c["n"])
    for kind in range(4):
        model = Smooth(kind, c["sig"], s)
        for plug in (-0.2, 0.6):
            crit = make(c, model, s * plug)
            for x in itertools.product(xs, xs):
                x = np.array(x)
                v, g = crit(x, return_dx=True)
                v0 = scalar(crit(x))
                ctx.check(abs(scalar(v) - v0) <= 1e-12 * max(1, abs(v0)), lambda: f"{c['f']}: the value with gradient {v} differs from {v0}")
                want = closed(c["f"], s * model._m(x), math.sqrt(model._v(x)), plug, c["par"])
                ctx.check(abs(v0 - want) <= 1e-8 * max(1e-6, abs(want)), lambda: f"{c['f']} at {x} is {v0}, expected {want}")
                g = np.ravel(g)
                ctx.check(g.shape == (2,), lambda: f"gradient of shape {np.shape(g)}")
                for j in range(2):
                    h = 1e-5
                    e = np.zeros(2)
                    e[j] = h
                    fd = (closed(c["f"], s * model._m(x + e), math.sqrt(model._v(x + e)), plug, c["par"]) - closed(c["f"], s * model._m(x - e), math.sqrt(model._v(x - e)), plug, c["par"])) / (2 * h)
                    ctx.check(abs(g[j] - fd) <= 1e-5 * max(1e-2, abs(fd), abs(want)), lambda: f"the gradient of {c['f']}({c['par']}) minimize={c['min']} at {x} is {g}, finite difference {fd} in direction {j}")
                ctx.step()
                ctx.state((c["f"], c["par"], c["min"], "grad", kind, plug, tuple(x)))
    ctx.trace()
