"""Helpers to drive the real optimizers."""
import itertools
import zlib

import numpy as np

from mc import spaces
from mc.core import Violation
from mc.models import Peak, SmoothPeak

AQ = {"max_FEs": 14, "n_restart": 1, "wait_iter": 1}


def cls_of(name):
    import bayes_optim
    from bayes_optim import extension, bayes_opt

    for m in (bayes_optim, extension, bayes_opt):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def make(cls, specs, model="peak", z=None, minimize=True, eval_type="list", n_point=1, DoE_size=3, aq=None, names=None, **kw):
    space = kw.pop("space", None)
    space = spaces.build(specs, names) if space is None else space
    n_obj = kw.get("n_obj", 1)
    if model == "peak":
        m = Peak(z, minimize if isinstance(minimize, bool) else True, n_obj)
    elif model == "smooth":
        m = SmoothPeak(z, minimize)
    elif model == "rf":
        from bayes_optim import RandomForest

        m = RandomForest(levels=space.levels, n_estimators=4, random_state=0)
    else:
        m = model
    args = dict(search_space=space, model=m, eval_type=eval_type, DoE_size=DoE_size, minimize=minimize,
                acquisition_optimization=dict(AQ if aq is None else aq))
    if cls not in ("BO",):
        if cls != "MOBO":
            args["n_point"] = n_point
    args.update(kw)
    return cls_of(cls)(**args)


def validate(X, specs, nm, eval_type, ctx, fixed=None):
    """every candidate carries exactly one admissible value per variable; returns them as lists"""
    ctx.check(isinstance(X, list), lambda: f"ask returned {type(X).__name__}, not a list")
    rows = []
    for x in X:
        if eval_type == "dict":
            ctx.check(isinstance(x, dict), lambda: f"candidate {x!r} is not a dictionary")
            ctx.check(set(map(str, x.keys())) == set(nm) and len(x) == len(nm), lambda: f"candidate {x!r} does not name exactly the variables {nm}")
            x = [x[n] for n in nm]
        ctx.check(isinstance(x, list) and len(x) == len(specs), lambda: f"candidate {x!r} does not have one value per variable {nm}")
        for s, v, n in zip(specs, x, nm):
            if fixed and n in fixed:
                ctx.check(spaces.same(v, fixed[n]), lambda: f"variable {n} is fixed to {fixed[n]!r} but the candidate {x!r} has {v!r}")
            else:
                why = spaces.admissible(s, v)
                ctx.check(why is None, lambda: f"candidate {x!r}: variable {n} {s}: {why}")
        rows.append(x)
    return rows


def fval(x):
    """a fixed, non-flat pseudo-objective depending on the point only"""
    return (zlib.crc32(repr([spaces_key(v) for v in (list(x.values()) if isinstance(x, dict) else x)]).encode()) % 1000) / 100.0


def spaces_key(v):
    if isinstance(v, (bool, np.bool_)):
        return ("b", bool(v))
    if isinstance(v, (int, np.integer)):
        return ("i", int(v))
    if isinstance(v, (float, np.floating)):
        return ("f", float(v))
    return v


def key(x):
    return tuple(spaces_key(v) for v in x)
