"""P20: the expected hypervolume improvement equals the expectation, for every front, prediction and reference point of the bound."""
import itertools
import math

import numpy as np

LEVEL = "model_checking"
ASSUMPTIONS = ["single precision: relative tolerance 2e-3, absolute 2e-4", "independent normal predictions", "one point at a time"]
CHUNK = 4
MU = [-0.5, 0.5, 1.0, 2.5]
SD = [0.05, 0.5, 2.0]


def BOUNDS(tier):
    return "all fronts of up to %d points of a 3x3 grid and up to %d of a 2x2x2 grid, 2 reference points, four magnitudes, all means from %s and standard deviations from %s per objective" % ((3, 2, MU, SD) if tier == "quick" else (4, 3, MU, SD))


def cases(tier):
    out = []
    for m, pts, n in ((2, list(itertools.product((1.0, 2.0, 3.0), repeat=2)), 3 if tier == "quick" else 4), (3, list(itertools.product((1.0, 2.0), repeat=3)), 2 if tier == "quick" else 3)):
        for k in range(1, n + 1):
            for Y in itertools.combinations(pts, k):
                for ref in ((0.0,) * m, tuple(0.5 - 0.25 * j for j in range(m))):
                    if any(all(v > r for v, r in zip(y, ref)) for y in Y):
                        out.append({"Y": [list(y) for y in Y], "ref": list(ref), "m": m})
                        if k <= 2 and ref[0] == 0:  # objectives of other, and of different, magnitudes
                            for f in ((100.0,) * m, (0.01,) * m, (50.0, 0.02, 1.0)[:m]):
                                out.append({"Y": [[v * s for v, s in zip(y, f)] for y in Y], "ref": [v * s for v, s in zip(ref, f)], "m": m, "f": list(f)})
    return out


def phi(z):
    return math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)


def sf(z):
    return 0.5 * math.erfc(z / math.sqrt(2))


def tail(a, mu, sd):
    """integral over u >= a of P(F >= u)"""
    z = (a - mu) / sd
    return sd * (phi(z) - z * sf(z))


def ehvi(Y, ref, mu, sd):
    m = len(ref)
    ax = [sorted({ref[j]} | {y[j] for y in Y if y[j] > ref[j]}) + [None] for j in range(m)]
    seg = [[tail(a, mu[j], sd[j]) - (0.0 if b is None else tail(b, mu[j], sd[j])) for a, b in zip(ax[j], ax[j][1:])] for j in range(m)]
    tot = 0.0
    for cell in itertools.product(*[range(len(a) - 1) for a in ax]):
        if any(all(ax[j][k + 1] is not None and y[j] >= ax[j][k + 1] for j, k in enumerate(cell)) for y in Y):
            continue
        p = 1.0
        for j, k in enumerate(cell):
            p *= seg[j][k]
        tot += p
    return tot


class Model:
    def predict(self, X, eval_MSE=False):
        X = np.atleast_2d(X)
        m = np.tile(self.mu, (len(X), 1))
        return (m, np.tile(np.square(self.sd), (len(X), 1))) if eval_MSE else m


def run_case(c, ctx):
    from torch import Tensor
    from bayes_optim.multi_objective import EHVI
    from bayes_optim.utils.multi_objective.box_decompositions import NondominatedPartitioning

    m = c["m"]
    model = Model()
    part = NondominatedPartitioning(ref_point=Tensor(c["ref"]), Y=Tensor(c["Y"]))
    crit = EHVI(model=model, ref_point=list(c["ref"]), partitioning=part)
    mus = list(itertools.product(MU, repeat=m)) if m == 2 else list(itertools.product(MU[1:], repeat=m))
    sds = list(itertools.product(SD, repeat=m)) if m == 2 else [(0.5, 2.0, 0.05), (0.5, 0.5, 0.5), (2.0, 0.05, 2.0)]
    prev = None
    f = c.get("f", [1.0] * m)
    unit = math.prod(f)
    for k, mu in enumerate(mus):
        mu = tuple(v * s for v, s in zip(mu, f))
        for sd in sds:
            sd = tuple(v * s for v, s in zip(sd, f))
            model.mu, model.sd = list(mu), list(sd)
            x = [0.25] * 2 if k % 2 else np.array([[0.25, 0.75]])
            got = float(np.ravel(crit(x))[0])
            want = ehvi(c["Y"], c["ref"], mu, sd)
            ctx.step()
            ctx.check(abs(got - want) <= 2e-4 * unit + 2e-3 * want, lambda: f"EHVI of mean {mu} sd {sd} for front {c['Y']} and reference {c['ref']} is {got}, expected {want}")
            ctx.check(got >= -2e-4 * unit, lambda: f"negative EHVI {got}")
            ctx.state((repr(c["Y"]), repr(c["ref"]), mu, sd))
    ctx.trace()
