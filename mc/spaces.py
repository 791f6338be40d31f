"""A catalogue of small search spaces and an independent statement of which values are admissible."""
import itertools
from itertools import chain, combinations

import numpy as np


def build_var(spec, name):
    from bayes_optim.search_space import Bool, Discrete, Integer, Ordinal, Real, Subset

    k = spec[0]
    if k == "r":
        return Real([spec[1], spec[2]], name=name, **(spec[3] if len(spec) > 3 else {}))
    if k == "i":
        kw = {"step": spec[3]} if len(spec) > 3 else {}
        return Integer([spec[1], spec[2]], name=name, **kw)
    if k == "d":
        return Discrete(list(spec[1]), name=name)
    if k == "o":
        return Ordinal(list(spec[1]), name=name)
    if k == "b":
        return Bool(name=name)
    if k == "s":
        return Subset(list(spec[1]), name=name)
    raise ValueError(spec)


def names(specs):
    return [f"{s[0]}_{j}" for j, s in enumerate(specs)]


def build(specs, nm=None):
    from bayes_optim.search_space import SearchSpace

    nm = names(specs) if nm is None else nm
    return SearchSpace([build_var(s, n) for s, n in zip(specs, nm)])


def subsets(xs):
    return list(chain.from_iterable(combinations(xs, r) for r in range(1, len(xs) + 1)))


def values(spec):
    """all admissible values of a finite variable (None for a continuous one)"""
    k = spec[0]
    if k == "r":
        return None
    if k == "i":
        step = spec[3] if len(spec) > 3 else 1
        return list(range(spec[1], spec[2] + 1, step))
    if k in ("d", "o"):
        return list(spec[1])
    if k == "b":
        return [False, True]
    return subsets(list(spec[1]))


def points(specs):
    vs = [values(s) for s in specs]
    return None if any(v is None for v in vs) else [list(p) for p in itertools.product(*vs)]


def same(a, b):
    """equal as values of the same kind (True is not 1, 1 is not 1.0)"""
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return int(a) == int(b)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return float(a) == float(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def admissible(spec, v):
    """independent statement of admissibility: returns None or the reason why `v` is not admissible"""
    k = spec[0]
    if k == "r":
        if isinstance(v, (bool, np.bool_)) or not isinstance(v, (float, np.floating)):
            return f"{v!r} ({type(v).__name__}) is not a real number"
        lo, hi = spec[1], spec[2]
        if not (lo <= v <= hi):
            return f"{v!r} is outside [{lo}, {hi}]"
        prec = (spec[3] if len(spec) > 3 else {}).get("precision")
        if prec is not None and v not in (lo, hi):
            if abs(v - round(float(v), prec)) > 1e-12 * max(1, abs(v)):
                return f"{v!r} is not rounded to {prec} digits"
        return None
    if k == "i":
        if isinstance(v, (bool, np.bool_)) or not isinstance(v, (int, np.integer)):
            return f"{v!r} ({type(v).__name__}) is not an integer"
        step = spec[3] if len(spec) > 3 else 1
        if not (spec[1] <= v <= spec[2]) or (int(v) - spec[1]) % step:
            return f"{v!r} is not in [{spec[1]}, {spec[2]}] with step {step}"
        return None
    for w in values(spec):
        if same(v, w):
            return None
    return f"{v!r} ({type(v).__name__}) is not one of {values(spec)}"
