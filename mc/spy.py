"""Records every evaluation of an acquisition function: what it was evaluated at, with which parameters, and what came out."""
import contextlib

import numpy as np


@contextlib.contextmanager
def acquisitions():
    from bayes_optim.acquisition import acquisition_fun as A

    log = []
    saved = []

    def wrap(cls):
        orig = cls.__dict__["__call__"]

        def call(self, X, *a, **kw):
            out = orig(self, X, *a, **kw)
            val = out[0] if isinstance(out, tuple) else out
            x = X.tolist() if isinstance(X, np.ndarray) else list(X)
            if len(x) == 1 and isinstance(x[0], (list, tuple, np.ndarray)) and not isinstance(x[0], str):
                x = list(x[0])
            log.append({"id": id(self), "self": self, "cls": type(self).__name__, "x": list(x), "value": float(np.ravel(val)[0]), "minimize": self.minimize, "model": self.model,
                        **{k: getattr(self, k, None) for k in ("t", "alpha", "epsilon", "plugin")}})
            return out

        saved.append((cls, orig))
        cls.__call__ = call

    try:
        for n in ("UCB", "EI", "EpsilonPI", "MGFI"):
            wrap(getattr(A, n))
        yield log
    finally:
        for cls, orig in saved:
            cls.__call__ = orig


def groups(log):
    """the evaluations of each criterion, in order of creation"""
    out = {}
    for r in log:
        out.setdefault(r["id"], []).append(r)
    return list(out.values())
