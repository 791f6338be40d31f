"""P26: warm start - data given at the start count as knowledge, not as evaluations, and replace the initial design."""
import copy
import itertools

import numpy as np

from mc import bo, rng, spaces, tells
from mc.tells import NM, POINTS, SPECS, dec

LEVEL = "model_checking"
ASSUMPTIONS = ["the surrogate is a stand-in", "single objective; the data are admissible points of the search space"]
CHUNK = 8
VALS = [-1.0, 2.0, "nan", "inf"]
CLS = ["BO", "ParallelBO", "NoisyBO", "SelfAdaptiveBO", "MultiAcquisitionBO", "AnnealingBO"]


def BOUNDS(tier):
    n = 3 if tier == "quick" else 4
    return f"{len(CLS)} optimizer classes, every sequence of up to {n} objective values over {VALS}, points as lists, dictionaries in both key orders and solution objects, values as list/tuple/array, given at construction or afterwards, minimization and maximization; then ask, tell and ask, compared with an optimizer that was told the same data; whole runs for budgets of 1-4; finite spaces of 8-24 points of which all but 0-2 are given, for every position of the missing ones"


def cases(tier):
    out = []
    n = 3 if tier == "quick" else 4
    for cls, (ev, how), mn in itertools.product(CLS, (("list", "plain"), ("list", "sol"), ("dict", "plain"), ("dict", "perm"), ("dict", "sol")), (True, False)):
        for k in range(1, n + 1):
            for first in VALS:
                late = (k + VALS.index(first) + mn) % 2 == 1
                out.append({"k": "tell", "cls": cls, "ev": ev, "how": how, "min": mn, "n": k, "first": first, "late": late})
    for cls, ev, mn in itertools.product(("BO", "ParallelBO"), ("list", "dict"), (True, False)):
        for B in range(1, 5):
            out.append({"k": "run", "cls": cls, "ev": ev, "min": mn, "B": B})
    for s, cls, ev in itertools.product(("i4i5", "d3i4b", "small"), ("BO", "ParallelBO", "SelfAdaptiveBO"), ("list", "dict")):
        for left in (0, 1, 2):
            out.append({"k": "fin", "sp": s, "cls": cls, "ev": ev, "left": left})
    return out


def finite(c, ctx):
    """almost all points of a finite space are given: exactly the others are proposed, then the space is exhausted"""
    from checks import P03
    from bayes_optim.utils.exception import AskEmptyError

    specs = {**P03.BIG, "small": [["b"], ["i", 0, 1], ["o", [1, 2]]]}[c["sp"]]
    nm = spaces.names(specs)
    pts = spaces.points(specs)
    form = lambda P: [dict(zip(nm, p)) if c["ev"] == "dict" else list(p) for p in P]
    for j in range(len(pts)):
        for z in {0, j, (j + 1) % len(pts), (5 * j + 2) % len(pts)}:
            ctx.new_trace()
            unseen = [pts[(j + i) % len(pts)] for i in range(c["left"])]
            done = [p for p in pts if p not in unseen]
            fs = [float((5 * i) % 17) for i in range(len(done))]
            with rng.controlled(rng.Env(stream=5)):
                late = (j + z) % 2
                kw = {} if late else {"warm_data": (form(done), fs)}
                opt = bo.make(c["cls"], specs, z=pts[z], eval_type=c["ev"], n_point=2, DoE_size=2, **kw)
                if late:
                    opt.warm_data = (form(done), fs)
                ctx.step(f"{len(done)} of {len(pts)} points given")
                ctx.check(opt.eval_count == 0 and opt.iter_count == 0, lambda: f"{len(done)} given data count as {opt.eval_count} evaluations in {opt.iter_count} iterations")
                ctx.eq([bo.key(r) for r in opt.data.tolist()] if done else [], [bo.key(p) for p in done], "recorded data")
                ctx.eq([float(v) for v in np.ravel(opt.data.fitness)] if done else [], fs, "recorded values")
                while True:
                    n = 1 if c["cls"] == "BO" else 2
                    try:
                        X = opt.ask(n)
                    except AskEmptyError:
                        ctx.check(not unseen, lambda: f"the space is reported exhausted although {unseen} was neither given nor evaluated")
                        break
                    rows = bo.validate(X, specs, nm, c["ev"], ctx)
                    ctx.step(f"ask -> {rows}")
                    ctx.check(len(rows) == min(n, len(unseen)) and all(any(bo.key(r) == bo.key(u) for u in unseen) for r in rows), lambda: f"{rows} proposed, but only {unseen} was neither given nor evaluated")
                    opt.tell(X, [bo.fval(r) for r in rows])
                    unseen = [u for u in unseen if all(bo.key(u) != bo.key(r) for r in rows)]
            ctx.state((c["sp"], c["cls"], c["left"], j, z))
            ctx.trace()


def build(c, warm=None, late=False, **kw):
    args = dict(names=NM, eval_type=c["ev"], minimize=c["min"], n_point=2, DoE_size=3, z=["z", 1.75, 5, True], max_FEs=40, aq={"max_FEs": 6, "n_restart": 1, "wait_iter": 1})
    args.update(kw)
    if warm is not None and not late:
        args["warm_data"] = warm
    opt = bo.make(c["cls"], SPECS, **args)
    if warm is not None and late:
        opt.warm_data = warm
    return opt


def one(c, fs, ctx):
    xs = POINTS[: len(fs)]
    X, F = tells.fmt(xs, c["ev"], c["how"]), tells.fmt_f(fs, c["how"])
    if c["how"] == "plain" and len(fs) == 2:
        F = tuple(F)
    X0 = copy.deepcopy(X) if c["how"] != "sol" else None
    n_ask = 1 if c["cls"] == "BO" else 2
    with rng.controlled(rng.Env()):
        opt = build(c, (X, F), c["late"])
        ctx.step(f"warm start from {fs}")
        m = tells.Model(c["min"])
        m.data = [(x, f) for x, f in zip(xs, fs) if tells.ok(f)]
        tells.compare_data(opt, m, ctx)
        ctx.check(opt.eval_count == 0 and opt.iter_count == 0, lambda: f"given data count as {opt.eval_count} evaluations in {opt.iter_count} iterations")
        ctx.check(not opt.check_stop(), "the optimizer stops before its first evaluation")
        if X0 is not None:
            ctx.check(X == X0, lambda: f"the caller's data were changed to {X}")
        if m.data:
            best = m.best()
            ctx.check(float(np.ravel(opt.xopt.fitness)[0]) == best and any(f == best and all(spaces.same(a, b) for a, b in zip(opt.xopt.tolist(), x)) for x, f in m.data), lambda: f"the incumbent is {opt.xopt} for {m.data}")
        Y = opt.ask()
        rows = bo.validate(Y, SPECS, NM, c["ev"], ctx)
        want = n_ask if m.data else 3
        ctx.check(len(rows) == want, lambda: f"{len(rows)} candidates after a warm start from {fs}, expected {want}: " + ("the initial design is skipped" if m.data else "all given data failed, the initial design is due"))
        if c["cls"] != "NoisyBO":
            for r in rows:
                ctx.check(all(bo.key(r) != bo.key(x) for x, _ in m.data), lambda: f"{r} was given as data and is proposed again")
        ctx.step(f"ask -> {rows}")
    if m.data:
        # the same data told in the ordinary way lead to the same candidates
        with rng.controlled(rng.Env()):
            ref = build(c)
            ref.tell(tells.fmt(xs, c["ev"], "plain" if c["how"] == "sol" else c["how"]), tells.fmt_f(fs, c["how"]))
            if c["cls"] != "AnnealingBO":
                Z = bo.validate(ref.ask(), SPECS, NM, c["ev"], ctx)
                ctx.check([bo.key(z) for z in Z] == [bo.key(r) for r in rows], lambda: f"after a warm start {rows} is proposed, after telling the same data {Z}")
    # later observations extend the data and are counted
    with rng.controlled(rng.Env()):
        vals = [0.5 + j for j in range(len(rows))]
        opt.tell(tells.fmt(rows, c["ev"], "plain") if c["ev"] == "list" else Y, vals)
        m.tell(rows, vals)
        tells.compare_data(opt, m, ctx)
        ctx.check(opt.eval_count == len(rows) and opt.iter_count == 1, lambda: f"{opt.eval_count} evaluations in {opt.iter_count} iterations after telling {len(rows)} points once")
        h = [float(np.ravel(v)[0]) for v in opt.hist_f]
        ctx.check(h == [m.best()], lambda: f"the history of best values is {h}, expected {[m.best()]}")
        rows2 = bo.validate(opt.ask(), SPECS, NM, c["ev"], ctx)
        ctx.check(len(rows2) == n_ask, lambda: f"{len(rows2)} candidates in the next iteration")
        ctx.step(f"tell, ask -> {rows2}")
    ctx.state((c["cls"], c["ev"], c["how"], c["min"], repr(fs)))
    ctx.trace()


def run(c, ctx):
    for k in (1, 2, 3):
        for seed in (0, 1):
            calls = []

            def f(x):
                calls.append(x)
                return bo.fval(x)

            xs = POINTS[:k]
            fs = [3.0 + j if seed else -5.0 - j for j in range(k)]
            opt = build(c, (tells.fmt(xs, c["ev"], "plain"), fs), obj_fun=f, max_FEs=c["B"], random_seed=seed)
            xopt, fopt, _ = opt.run()
            step = 1 if c["cls"] == "BO" else 2
            ctx.step(f"run with budget {c['B']} and {k} given points: {len(calls)} evaluations")
            ctx.check(c["B"] <= len(calls) < c["B"] + step, lambda: f"{len(calls)} evaluations with a budget of {c['B']} (batches of {step}), {k} points were given")
            ctx.check(opt.eval_count == len(calls), lambda: f"eval_count {opt.eval_count} after {len(calls)} evaluations")
            ctx.check(len(opt.data) == k + len(calls), lambda: f"{len(opt.data)} observations from {k} given and {len(calls)} evaluated points")
            best = (min if c["min"] else max)(fs + [bo.fval(x) for x in calls])
            ctx.check(float(np.ravel(fopt)[0]) == best, lambda: f"the run returns {fopt}, the best value including the given data is {best}")
            ctx.state((c["cls"], c["ev"], c["min"], c["B"], k, seed))
    ctx.trace()


def run_case(c, ctx):
    ctx.sample(c)
    if c["k"] == "run":
        return run(c, ctx)
    if c["k"] == "fin":
        return finite(c, ctx)
    for rest in itertools.product(VALS, repeat=c["n"] - 1):
        ctx.new_trace()
        one(c, [dec(v) for v in (c["first"],) + rest], ctx)
