"""P10: the dynamic penalty is zero exactly on the feasible set and grows with the violation and with time."""
import copy
import itertools
import math

import numpy as np

from mc import bo

LEVEL = "model_checking"
ASSUMPTIONS = ["constraint values are finite"]
CHUNK = 32
V = [-2.0, -0.1, -0.05, 0.0, 1e-9, 0.05, 0.1, 0.11, 2.0]
PTS = [[0.5, 1], ["a", 2], [("u", "v"), 3.5], [True, 0]]


def BOUNDS(tier):
    return f"all assignments of constraint values from {V} to 1-2 constraints of each kind at 1-{2 if tier == 'quick' else 3} points (scalar, list and array results, single point and list of points), 5 times (1 to 5000), 6 parameter settings, both directions, an exception at every row"


def cases(tier):
    out = []
    for kind in ("h", "g", "hg"):
        for nc in (1, 2):
            for npts in (0, 1, 2) + ((3,) if tier != "quick" else ()):  # 0: a single bare point
                for form in ("scalar", "list", "array"):
                    if form == "scalar" and nc > 1:
                        continue
                    for i0 in range(len(V)):
                        out.append({"kind": kind, "nc": nc, "npts": npts, "form": form, "i0": i0, "tier": tier})
    return out


PAR = [{}, {"C": 2.0}, {"alpha": 2.0}, {"beta": 2.0}, {"epsilon": 1e-3}, {"C": 0.25, "alpha": 0.5, "beta": 1.0, "epsilon": 0.0}]


def ref(hs, gs, t, minimize, C=0.5, alpha=1, beta=1.5, epsilon=1e-1):
    out = []
    for h, g in zip(hs, gs):
        p = math.fsum(abs(v) for v in h if abs(v) > epsilon) + math.fsum(v**beta for v in g if v > 0)
        out.append((C * t) ** alpha * p * (1 if minimize else -1))
    return out


def run_case(c, ctx):
    from bayes_optim.utils import dynamic_penalty

    rows = max(1, c["npts"])
    k = c["nc"] * rows * len(c["kind"])
    # bounded: full products while they stay small, otherwise a pairwise-complete rotation of the value list
    free = k - 1
    if len(V) ** free <= 800:
        combos = list(itertools.product(range(len(V)), repeat=free))
    else:
        combos = [tuple((a if j == p else b if j == q else (j + a) % len(V)) for j in range(free)) for p, q in itertools.combinations(range(free), 2) for a in range(len(V)) for b in range(len(V))]
    for n, combo in enumerate(combos):
        vals = [V[c["i0"]]] + [V[i] for i in combo]
        it = iter(vals)
        hs = [[next(it) for _ in range(c["nc"])] if "h" in c["kind"] else [] for _ in range(rows)]
        gs = [[next(it) for _ in range(c["nc"])] if "g" in c["kind"] else [] for _ in range(rows)]
        par = PAR[n % len(PAR)]
        t = (1, 2, 10, 3, 5000)[n % 5]
        mn = (n // 2) % 2 == 0
        one(c, hs, gs, t, mn, par, ctx, dynamic_penalty)


def one(c, hs, gs, t, mn, par, ctx, dynamic_penalty):
    from bayes_optim.utils.exception import ConstraintEvaluationError

    rows = len(hs)
    X = [[float(i) + 0.5] + PTS[i % len(PTS)] for i in range(rows)]
    seen = []

    def make(tab, fail=None):
        def f(x):
            i = int(x[0])
            ctx.check(list(x) == X[i], lambda: f"the constraint was called with {x!r}, expected {X[i]!r}")
            seen.append(i)
            if fail == i:
                raise RuntimeError("boom")
            v = tab[i]
            return v[0] if c["form"] == "scalar" else (np.array(v) if c["form"] == "array" else list(v))

        return f

    arg = copy.deepcopy(X[0] if c["npts"] == 0 else X)
    kw = dict(par, minimize=mn)
    if hs[0]:
        kw["equality"] = make(hs)
    if gs[0]:
        kw["inequality"] = make(gs)
    p = dynamic_penalty(arg, t, **kw)
    ctx.step(n=1)
    want = ref(hs, gs, t, mn, **par)
    ctx.check(arg == (X[0] if c["npts"] == 0 else X), "the points were changed")
    ctx.check(np.shape(p) == (rows,), lambda: f"{rows} points but penalties {p!r}")
    ctx.check(all(abs(a - b) <= 1e-12 * abs(b) for a, b in zip(p, want)), lambda: f"penalty {p} of equality values {hs} and inequality values {gs} at t={t}, minimize={mn}, {par}; expected {want}")
    ctx.check(sorted(set(seen)) == list(range(rows)), lambda: f"constraints were evaluated on rows {seen} of {rows}")
    ctx.state((c["kind"], c["form"], c["npts"], repr(hs), repr(gs), t, mn, repr(par)))
    if t == 10 and rows > 0 and c["i0"] == 0:
        for i in range(rows):
            for name, tab in (("equality", hs), ("inequality", gs)):
                if name in kw:
                    try:
                        dynamic_penalty(copy.deepcopy(arg), t, **{name: make(tab, i)})
                        ctx.check(False, "a failing constraint was swallowed")
                    except ConstraintEvaluationError:
                        ctx.step()
    ctx.trace()
