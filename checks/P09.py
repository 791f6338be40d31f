"""P09: constraints - sampled and proposed points are feasible; constraint functions see points in the declared format."""
import itertools
from contextlib import contextmanager

import numpy as np

from mc import bo, rng, spaces

LEVEL = "model_checking"
ASSUMPTIONS = ["constraint functions are deterministic", "proposals satisfy equality constraints up to 0.1, samples up to the requested tolerance (default 0.01)", "random draws come from numpy's global generator"]
CHUNK = 1
EQ_ASK = 0.1 + 1e-12

SP = {
    "r2": [["r", -5.0, 5.0], ["r", 0.0, 1.0]],
    "rp": [["r", -1.0, 2.0, {"precision": 1}], ["r", 0.0, 3.0, {"precision": 0}]],
    "rlog": [["r", 0.01, 10.0, {"scale": "log"}], ["r", -1.0, 1.0]],
    "ri": [["r", -2.0, 2.0], ["i", 0, 9, 3]],
    "is": [["i", 0, 9, 5], ["r", 0.0, 1.0]],
    "rd": [["d", ["a", "b", "c"]], ["r", 0.0, 1.0]],
    "rb": [["b"], ["r", -1.0, 1.0, {"precision": 2}], ["s", ["u", "v"]]],
    "sr": [["s", ["u", "v"]], ["r", -1.0, 1.0], ["i", 0, 4]],
    "ii": [["i", 0, 3], ["i", 1, 4]],
    "id": [["i", 0, 4, 2], ["d", ["p", "q"]], ["b"]],
}
# name -> (function of the list of values, kind)
CON = {
    "r2": {"half": ("g", lambda x: x[0] - 1.0), "tiny": ("g", lambda x: 1e-3 * (x[0] - 1.0)), "band": ("g", lambda x: [0.3 - x[1], x[1] - 0.32]), "ring": ("g", lambda x: [x[0] ** 2 + x[1] - 9.0, 0.25 - x[1]]), "eq": ("h", lambda x: x[0] - 2 * x[1]), "eq0": ("h", lambda x: 0.0)},
    "rp": {"half": ("g", lambda x: [x[0] - 1.25, x[1] - 2.2]), "edge": ("g", lambda x: 0.94 - x[0]), "tiny": ("g", lambda x: 1e-4 * (1.25 - x[0]))},
    "rlog": {"half": ("g", lambda x: x[0] - 1.0), "lin": ("g", lambda x: x[0] + x[1] - 2.0)},
    "ri": {"lin": ("g", lambda x: x[0] + x[1] - 4.0), "par": ("g", lambda x: 1.0 if x[1] == 6 else -1.0)},
    "is": {"sum": ("g", lambda x: x[0] + x[1] - 5.5), "up": ("g", lambda x: 0.5 - x[0])},
    "rd": {"cat": ("g", lambda x: 1.0 if x[0] == "c" else x[1] - 0.9), "tiny": ("g", lambda x: 1e-3 if x[0] == "c" else -1e-3), "one": ("g", lambda x: -1.0 if x[0] == "b" else x[1] - 0.2)},
    "rb": {"impl": ("g", lambda x: x[1] if x[0] else -1.0), "sub": ("g", lambda x: 1.0 if "v" in x[2] and x[1] > 0 else -0.5)},
    "sr": {"sub": ("g", lambda x: 1.0 if "v" in x[0] and x[1] > 0 else -0.5), "lin": ("g", lambda x: x[1] + x[2] - 2.0 + 0.5 * len(x[0]))},
    "ii": {"tiny": ("g", lambda x: 1e-5 * (x[0] - x[1])), "lt": ("g", lambda x: x[0] - x[1]), "eq": ("h", lambda x: x[0] + x[1] - 4), "both": ("gh", (lambda x: x[0] - 2, lambda x: x[0] + x[1] - 4)), "none": ("g", lambda x: 1.0)},
    "id": {"mix": ("g", lambda x: 1.0 if (x[1] == "p" and x[2]) or x[0] == 4 else -1.0), "zero": ("g", lambda x: x[0] - 2)},
}


def BOUNDS(tier):
    return ("10 spaces x 2-4 constraint systems (inequality, equality, both, infeasible): samples under every plan with <=%d deviating draw sites, N in {1,3}, 2 tolerances; initial designs with and without fixed variables, model-based asks (model pulls to each infeasible corner) with every single deviating site, list/dict, with and without fixed variables; exhaustive enumeration of finite feasible sets; constraint raising at each of its first %d calls" % ((1, 40) if tier == "quick" else (2, 200)))


def cases(tier):
    out = []
    for s in SP:
        for c in CON[s]:
            for N, tol in ((3, None), (1, 0.1)):
                if tier == "quick" and N == 1 and s not in ("r2", "ii"):
                    continue
                out.append({"k": "sample", "sp": s, "con": c, "N": N, "tol": tol, "bound": (1 if N == 3 and c in ("half", "lt", "mix", "cat", "impl", "lin", "sum", "up") else 0) if tier == "quick" else 1})
            for ev in ("list", "dict"):
                out.append({"k": "doe", "sp": s, "con": c, "ev": ev, "fixed": False})
                if ev == "dict":
                    out.append({"k": "doe", "sp": s, "con": c, "ev": ev, "fixed": True})
                if len(SP[s]) > 2:  # several fixed variables, not listed in the order of the space
                    out.append({"k": "doe", "sp": s, "con": c, "ev": ev, "fixed": 2})
                    out.append({"k": "ask", "sp": s, "con": c, "ev": ev, "cls": "BO", "fixed": 2, "bound": int(tier != "quick")})
                for cls in ("BO", "ParallelBO"):
                    out.append({"k": "ask", "sp": s, "con": c, "ev": ev, "cls": cls, "fixed": False, "bound": int(tier != "quick" or (ev == "list") == (cls == "BO"))})
                if tier != "quick" or ev == "dict":
                    out.append({"k": "ask", "sp": s, "con": c, "ev": ev, "cls": "MOBO", "fixed": False, "bound": int(tier != "quick")})
                if c != "none":
                    out.append({"k": "ask", "sp": s, "con": c, "ev": ev, "cls": "BO", "fixed": True, "bound": int(tier != "quick" or ev == "dict")})
    for s in ("ii", "id"):
        for c in CON[s]:
            for ev in ("list", "dict"):
                out.append({"k": "exhaust", "sp": s, "con": c, "ev": ev})
    for s, c in (("r2", "half"), ("rd", "cat"), ("ii", "eq")):
        for where in ("sample", "ask"):
            n = 40 if tier == "quick" else 200
            for k0 in range(0, n, 8):
                out.append({"k": "raise", "sp": s, "con": c, "where": where, "ks": list(range(k0, k0 + 8))})
    return out


class Cons:
    """wraps the constraint: checks the format of its argument and remembers a breach"""

    def __init__(self, f, specs, nm, ev, raise_at=None):
        self.f, self.specs, self.nm, self.ev, self.bad, self.n, self.raise_at = f, specs, nm, ev, None, 0, raise_at

    def __call__(self, x):
        k = self.n
        self.n += 1
        if self.raise_at is not None and k == self.raise_at:
            raise ValueError("cannot evaluate the constraint")
        if self.ev == "dict":
            if not isinstance(x, dict) or set(map(str, x)) != set(self.nm):
                self.bad = self.bad or f"a constraint was called with {x!r} instead of a dictionary of {self.nm}"
                return np.nan
            x = [x[n] for n in self.nm]
        elif len(x) != len(self.specs):
            self.bad = self.bad or f"a constraint was called with {x!r} for {len(self.specs)} variables"
            return np.nan
        for s, v in zip(self.specs, x):
            why = spaces.admissible(s[:3] if s[0] == "r" else s, v)  # the sampler's chain moves before rounding to the precision
            if why is not None:
                self.bad = self.bad or f"a constraint was called with {x!r}: {s}: {why}"
        return self.f(x)


def split(kind, f):
    h = g = None
    if kind == "g":
        g = f
    elif kind == "h":
        h = f
    else:
        g, h = f
    return h, g


def feasible(x, h, g, eqtol):
    return (g is None or np.all(np.asarray(g(x)) <= 0)) and (h is None or np.all(np.abs(h(x)) <= eqtol))


@contextmanager
def short_chains(on=True):
    """shorten the Markov chains of the constrained sampler (its step count is a parameter) to make exploration affordable"""
    from bayes_optim.search_space import samplers

    cls = getattr(samplers, "SCMC", None)
    if cls is None or not on:
        yield
        return
    init = cls.__init__

    def short(self, *a, **k):
        init(self, *a, **k)
        if hasattr(self, "mh_steps"):
            self.mh_steps = 2
        if hasattr(self, "nu_schedule") and len(self.nu_schedule) > 4:
            self.nu_schedule = np.r_[self.nu_schedule[::6], self.nu_schedule[-1:]]

    cls.__init__ = short
    try:
        yield
    finally:
        cls.__init__ = init


def run_case(c, ctx):
    specs = SP[c["sp"]]
    nm = spaces.names(specs)
    kind, f = CON[c["sp"]][c["con"]]
    h, g = split(kind, f)
    with short_chains(c["k"] in ("ask", "exhaust") or c.get("bound", 0) > 0):
        globals()["k_" + c["k"]](c, ctx, specs, nm, h, g)
    if c["k"] == "sample" and c.get("bound", 0) > 0:
        k_sample(dict(c, bound=0), ctx, specs, nm, h, g)


def k_sample(c, ctx, specs, nm, h, g):
    tol = c["tol"] if c["tol"] is not None else 1e-2

    def run(env):
        S = spaces.build(specs)
        kw = {} if c["tol"] is None else {"tol": c["tol"]}
        X = S.sample(c["N"], h=(lambda x: np.atleast_1d(h(x))) if h else None, g=(lambda x: np.atleast_1d(g(x))) if g else None, **kw)
        rows = [list(r) for r in X]
        ctx.step(f"sample -> {rows}")
        ctx.check(len(rows) <= c["N"], lambda: f"{len(rows)} points sampled, {c['N']} requested")
        bo.validate(rows, specs, nm, "list", ctx)
        for r in rows:
            ctx.check(feasible(r, h, g, tol + 1e-12), lambda: f"the sampled point {r} violates the constraints: g={g(r) if g else None} h={h(r) if h else None}")
            ctx.state((c["sp"], c["con"], bo.key(r)))
        if not env.plan and c["con"] != "none" and kind_easy(c):
            ctx.check(len(rows) == c["N"], lambda: f"only {len(rows)} of {c['N']} points although almost every point is feasible")
        ctx.trace()

    rng.explore(run, bound=c["bound"], by_site=True, ctx=ctx)


def kind_easy(c):
    return c["con"] in ("eq0",)


def cons(c, specs, nm, h, g):
    ev = c.get("ev", "list")
    H = Cons(h, specs, nm, ev) if h else None
    G = Cons(g, specs, nm, ev) if g else None
    kw = {}
    if H:
        kw["eq_fun"] = H
    if G:
        kw["ineq_fun"] = G
    return H, G, kw


def verify(rows, c, ctx, specs, nm, h, g, H, G, eqtol=EQ_ASK, fixed=None):
    for q in (H, G):
        ctx.check(q is None or q.bad is None, lambda: q.bad)
    for r in rows:
        ctx.check(feasible(r, h, g, eqtol), lambda: f"the proposed point {r} violates the constraints: g={g(r) if g else None} h={h(r) if h else None}")
        ctx.state((c["sp"], c["con"], "ask", bo.key(r)))


def k_doe(c, ctx, specs, nm, h, g):
    from bayes_optim.utils.exception import AskEmptyError

    H, G, kw = cons(c, specs, nm, h, g)
    with rng.controlled(rng.Env()):
        opt = bo.make("BO", specs, eval_type=c["ev"], DoE_size=2, **kw)
        start = start_points(specs, h, g)
        fixed = {nm[-1]: start[-1][-1]} if c["fixed"] and start else None
        if fixed and c["fixed"] == 2:
            fixed[nm[0]] = start[-1][0]
        try:
            X = opt.ask(fixed=fixed)
        except AskEmptyError:
            pts = spaces.points(specs)
            ctx.check(pts is None and h is not None or pts is not None and not any(feasible(p, h, g, 1e-2) for p in pts), "no initial design although feasible points exist")
            return
        ctx.step(f"ask(fixed={fixed}) -> {X}")
        rows = bo.validate(X, specs, nm, c["ev"], ctx, fixed)
        verify(rows, c, ctx, specs, nm, h, g, H, G, 1e-2 + 1e-12)
        opt.tell(X, [1.0 + i for i in range(len(X))])
        ctx.step("tell")
        ctx.check(G is None or G.bad is None, lambda: G.bad)
    ctx.trace()


def start_points(specs, h, g):
    """a few feasible points found by brute force on a grid"""
    grid = [np.linspace(s[1], s[2], 13).tolist() if s[0] == "r" else spaces.values(s) for s in specs]
    out = [list(p) for p in itertools.product(*grid) if feasible(list(p), h, g, 1e-2) and all(spaces.admissible(s, v) is None for s, v in zip(specs, p))]
    return out[:: max(1, len(out) // 3)][:3]


def corners(specs):
    return [list(p) for p in itertools.product(*[[s[1], s[2]] if s[0] == "r" else [spaces.values(s)[0], spaces.values(s)[-1]] for s in specs])]


def k_ask(c, ctx, specs, nm, h, g):
    from bayes_optim.utils.exception import AskEmptyError

    pts = spaces.points(specs)
    start = start_points(specs, h, g)
    if not start:
        return
    fixed = None
    if c["fixed"]:
        fixed = {nm[-1]: start[-1][-1]}
        if c["fixed"] == 2:
            fixed[nm[0]] = start[-1][0]
    bad = [z for z in corners(specs) if not feasible(z, h, g, EQ_ASK)][:2] or corners(specs)[:1]

    for z in bad:
        def run(env):
            H, G, kw = cons(c, specs, nm, h, g)
            mo = c["cls"] == "MOBO"
            if mo:
                kw["n_obj"] = 2
            opt = bo.make(c["cls"], specs, z=z, eval_type=c["ev"], n_point=2, DoE_size=2, aq={"max_FEs": 30, "n_restart": 2, "wait_iter": 2}, **kw)
            first = [dict(zip(nm, p)) for p in start] if c["ev"] == "dict" else [list(p) for p in start]
            opt.tell(first, [(2.0 + 0.5 * i, 3.0 - i) if mo else 2.0 + 0.5 * i for i in range(len(first))])
            ctx.check(G is None or G.bad is None, lambda: G.bad)
            try:
                X = opt.ask(fixed=fixed)
            except AskEmptyError:
                return
            ctx.step(f"z={z} ask(fixed={fixed}) -> {X}")
            rows = bo.validate(X, specs, nm, c["ev"], ctx, fixed)
            verify(rows, c, ctx, specs, nm, h, g, H, G)
            ctx.trace()

        rng.explore(run, bound=c["bound"], by_site=True, ctx=ctx)


def k_exhaust(c, ctx, specs, nm, h, g):
    from bayes_optim.utils.exception import AskEmptyError

    pts = [p for p in spaces.points(specs) if feasible(p, h, g, 1e-2)]
    H, G, kw = cons(c, specs, nm, h, g)
    with rng.controlled(rng.Env()):
        opt = bo.make("BO", specs, z=corners(specs)[-1], eval_type=c["ev"], DoE_size=2, aq={"max_FEs": 12, "n_restart": 1, "wait_iter": 1}, **kw)
        got = []
        while len(got) < len(pts):
            try:
                X = opt.ask()
            except AskEmptyError:
                ctx.check(False, f"{len(pts) - len(got)} feasible points were never proposed: only {got} of {pts}")
            rows = bo.validate(X, specs, nm, c["ev"], ctx)
            ctx.step(f"ask -> {rows}")
            verify(rows, c, ctx, specs, nm, h, g, H, G, 1e-2)
            for r in rows:
                ctx.check(r not in got, lambda: f"{r} was proposed again")
                got.append(r)
            opt.tell(X, [bo.fval(r) + 0.3 * len(got) for r in rows])
            ctx.step("tell")
        try:
            X = opt.ask()
            ctx.check(False, lambda: f"{X} proposed although all {len(pts)} feasible points are evaluated")
        except AskEmptyError:
            ctx.step("AskEmptyError")
    ctx.trace()


def k_raise(c, ctx, specs, nm, h, g):
    from bayes_optim.utils.exception import ConstraintEvaluationError

    start = start_points(specs, h, g)
    for k in c["ks"]:
        f = Cons(h or g, specs, nm, "list", k)
        if c["where"] == "sample":
            try:
                with rng.controlled(rng.Env()):
                    spaces.build(specs).sample(3, **{"h" if h else "g": lambda x: np.atleast_1d(f(list(x)))})
                ctx.check(f.n <= k, lambda: f"the failure of the constraint at call {k} was swallowed")
            except ConstraintEvaluationError:
                pass
        else:
            with rng.controlled(rng.Env()):
                opt = bo.make("BO", specs, z=corners(specs)[0], DoE_size=2, aq={"max_FEs": 6, "n_restart": 1, "wait_iter": 1}, **{"eq_fun" if h else "ineq_fun": f})
                f.raise_at = None
                opt.tell(start, [2.0 + i for i in range(len(start))])
                f.n, f.raise_at = 0, k
                before = len(opt.data)
                try:
                    opt.ask()
                except (ConstraintEvaluationError, ValueError):
                    ctx.check(f.n > k, "an error without a failing constraint")
                f.raise_at = None
                ctx.check(len(opt.data) == before and opt.eval_count == before, "a failing constraint changed the recorded data")
                rows = opt.ask()
                verify(rows, c, ctx, specs, nm, h, g, None, None)
        ctx.step(f"raise at call {k}")
        ctx.state((c["sp"], c["con"], c["where"], k))
        ctx.trace()
