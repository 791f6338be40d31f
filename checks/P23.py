"""P23: the reflection at the box boundary."""
import copy
import itertools
import math

import numpy as np

LEVEL = "model_checking"
ASSUMPTIONS = ["finite coordinates of magnitude up to 1e6 box widths"]
CHUNK = 4
BOX = [(0.0, 1.0), (-5.0, 5.0), (-3.0, -1.0), (2.0, 10.0), (0.1, 0.3), (0.0, 1e-9), (1e6, 1e6 + 0.25), (-math.inf, math.inf), (0.0, math.inf), (-math.inf, -2.0)]
REL = [0.0, 1.0, 0.5, 0.25, -0.25, 1.25, -1.0, 2.0, -1.75, 2.75, 3.5, -7.125, 100.5, -1000.25, 1e6 + 0.75, 1e-12, -1e-12, 1 + 1e-12]


def BOUNDS(tier):
    return f"all vectors of 1-{2 if tier == 'quick' else 3} coordinates over {len(REL)} relative positions and {len(BOX)} boxes (half-open and infinite included), vectors, columns and matrices, lists and arrays"


def cases(tier):
    out = []
    for d in (1, 2) if tier == "quick" else (1, 2, 3):
        for bx in itertools.product(range(len(BOX)), repeat=d):
            out.append({"bx": list(bx)})
    return out


def at(b, r):
    lo, hi = b
    if math.isfinite(lo) and math.isfinite(hi):
        return lo + r * (hi - lo)
    return r


def ref(b, v):
    lo, hi = b
    if not math.isfinite(lo) and not math.isfinite(hi):
        return v
    if not math.isfinite(hi):
        return v if v >= lo else 2 * lo - v
    if not math.isfinite(lo):
        return v if v <= hi else 2 * hi - v
    y = math.fmod((v - lo) / (hi - lo), 2.0)
    y = y + 2 if y < 0 else y
    return lo + (hi - lo) * (y if y <= 1 else 2 - y)


def run_case(c, ctx):
    from bayes_optim.utils import handle_box_constraint

    bx = [BOX[i] for i in c["bx"]]
    lb, ub = [b[0] for b in bx], [b[1] for b in bx]
    d = len(bx)
    for rel in itertools.product(REL, repeat=d):
        x = [at(b, r) for b, r in zip(bx, rel)]
        want = [ref(b, v) for b, v in zip(bx, x)]
        for form in ("list", "array", "column"):
            a = list(x) if form == "list" else np.array(x) if form == "array" else np.array(x).reshape(-1, 1)
            keep = copy.deepcopy(a)
            got = handle_box_constraint(a, np.array(lb) if form == "array" else lb, np.array(ub) if form == "array" else ub)
            ctx.check(np.shape(got) == np.shape(np.asarray(keep)), lambda: f"shape {np.shape(got)} for {keep!r}")
            ctx.check(np.array_equal(np.asarray(a), np.asarray(keep)), lambda: f"the input {keep!r} was changed to {a!r}")
            for b, v, w, u in zip(bx, np.ravel(got), want, x):
                ctx.check(b[0] <= v <= b[1], lambda: f"{u} is mapped to {v!r}, outside {b}")
                scale = 1.0 if not math.isfinite(b[1] - b[0]) else b[1] - b[0]
                ctx.check(abs(v - w) <= 1e-9 * scale * max(1.0, abs(u) / scale), lambda: f"{u} in {b} is mapped to {v}, the reflection is {w}")
            ctx.step()
        ctx.state((tuple(c["bx"]), rel))
    # several points at once: columns, or rows where the shape tells
    pts = [[at(b, r) for b, r in zip(bx, itertools.islice(itertools.cycle(REL), k, None))] for k in range(len(REL))]
    want = [[ref(b, v) for b, v in zip(bx, p)] for p in pts]
    scale = np.array([1.0 if not math.isfinite(b[1] - b[0]) else b[1] - b[0] for b in bx]).reshape(-1, 1)
    tol = lambda a: 1e-9 * scale * np.maximum(1.0, np.abs(a) / scale)
    for m in range(1, 6):
        for k in range(0, len(pts) - m + 1):
            for form in ("columns", "rows"):
                a, w = np.array(pts[k : k + m]), np.array(want[k : k + m])
                if form == "rows" and m == d:
                    continue
                if form == "columns":
                    a, w = a.T, w.T
                keep = a.copy()
                got = handle_box_constraint(a, lb, ub)
                ctx.check(np.array_equal(a, keep), "the input was changed")
                ctx.check(np.shape(got) == a.shape and np.all(np.abs((got - w) if form == "columns" else (got - w).T) <= tol((a if form == "columns" else a.T))), lambda: f"{keep.tolist()} in {bx} is mapped to {np.asarray(got).tolist()}, the reflection is {w.tolist()}")
                ctx.step()
    ctx.trace()
