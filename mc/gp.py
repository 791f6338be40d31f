"""A small, deterministic Gaussian process surrogate of the library."""
import numpy as np


def gp(space, **kw):
    from bayes_optim.surrogate import GaussianProcess, trend

    dim = space.dim
    b = np.asarray(space.bounds, dtype=float)
    par = dict(mean=trend.constant_trend(dim), corr="matern", thetaL=1e-3 * (b[:, 1] - b[:, 0]), thetaU=1e3 * (b[:, 1] - b[:, 0]), nugget=1e-6,
               noise_estim=False, optimizer="BFGS", wait_iter=2, random_start=2, likelihood="concentrated", eval_budget=30, random_state=1)
    par.update(kw)
    return GaussianProcess(**par)
