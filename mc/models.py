"""Deterministic surrogate stand-ins obeying the protocol the optimizers rely on: fit, predict, is_fitted."""
import numpy as np


def _dist(x, z):
    d = 0.0
    for a, b in zip(x, z):
        num = isinstance(a, (int, float, np.integer, np.floating)) and not isinstance(a, (bool, np.bool_))
        numb = isinstance(b, (int, float, np.integer, np.floating)) and not isinstance(b, (bool, np.bool_))
        if num and numb:
            d += min(1.0, 0.2 * abs(float(a) - float(b))) if a != b else 0.0
        else:
            d += 0.0 if a == b else 1.0
    return d


class Peak:
    """A surrogate that ranks points by their distance to `z`: the acquisition is maximal at `z`."""

    def __init__(self, z=None, minimize=True, n_obj=1):
        self.z = z
        self.sign = 1.0 if minimize else -1.0
        self.n_obj = n_obj
        self.is_fitted = False
        self.n_fit = 0

    def fit(self, X, y):
        self.is_fitted = True
        self.n_fit += 1
        self.n = len(X)
        return self

    def predict(self, X, eval_MSE=False):
        rows = [list(r) for r in np.atleast_2d(np.array(X, dtype=object))] if not isinstance(X, list) else [list(r) for r in X]
        z = self.z if self.z is not None else ([0] * len(rows[0]))
        y = np.array([self.sign * _dist(r, z) for r in rows], dtype=float)
        mse = np.full(len(rows), 0.25)
        if self.n_obj > 1:
            y = np.stack([y] * self.n_obj, axis=1)
            mse = np.stack([mse] * self.n_obj, axis=1)
        return (y, mse) if eval_MSE else y


class SmoothPeak(Peak):
    """`Peak` on real-valued spaces with a gradient (takes the BFGS path)."""

    def predict(self, X, eval_MSE=False):
        X = np.atleast_2d(np.array(X, dtype=float))
        z = np.zeros(X.shape[1]) if self.z is None else np.asarray(self.z, dtype=float)
        y = self.sign * np.sum((X - z) ** 2, axis=1)
        mse = np.full(len(X), 0.25)
        return (y, mse) if eval_MSE else y

    def gradient(self, X):
        X = np.atleast_2d(np.array(X, dtype=float))
        z = np.zeros(X.shape[1]) if self.z is None else np.asarray(self.z, dtype=float)
        return self.sign * 2 * (X - z), np.zeros((1, X.shape[1]))
