"""P06: run() and fmin evaluate until the budget or the target is reached, no longer, and return what they observed."""
import itertools
import math

import numpy as np

from mc import bo, rng, spaces, tells
from mc.tells import dec

LEVEL = "model_checking"
ASSUMPTIONS = ["run(): the surrogate is a stand-in; fmin: its own Gaussian process", "the target is never hit exactly"]
CHUNK = 4
SPECS = [["r", -2.0, 2.0], ["d", ["x", "y"]], ["i", 0, 50]]
NM = spaces.names(SPECS)
V = [-1.0, 1.0, "nan"]
VX = [3.0, "inf", "-inf"]


class Boom(Exception):
    pass


def BOUNDS(tier):
    return ("run(): all result scripts of length <=%d over %s (plus %s at each single position) x DoE size 1-3 x batch 1-3 x budget 1-5 x target/none x min/max x list/dict x scalar/parallel objective, and an exception at every evaluation; two objectives: all scripts of length %d over %d value pairs x directions x DoE size x budget; all accepted forms of the settings; "
            "fmin: 10 bound formats x batch x initial design x budget x seed" % (4 if tier == "quick" else 6, V, VX, 3 if tier == "quick" else 4, len(MV)))


def cases(tier):
    L = 4 if tier == "quick" else 6
    out = []
    for doe, n, mx in itertools.product((1, 2, 3), (1, 2, 3), (1, 3, 4, 5) if tier == "quick" else range(1, 8)):
        for t in (None, 0.0):
            for mn in (True, False):
                k = doe + n + mx + int(mn)
                out.append({"k": "run", "doe": doe, "n": n, "mx": mx, "t": t, "min": mn, "ev": "dict" if k % 2 else "list", "par": (k // 2) % 2 == 0, "L": L})
    for doe, n, mx, par in itertools.product((1, 2), (1, 2), (4, 5), (False, True)):
        out.append({"k": "fault", "doe": doe, "n": n, "mx": mx, "par": par})
    for doe, mx, mi, ev in itertools.product((1, 2), (3, 5, 6), itertools.product((True, False), repeat=2), ("list", "dict")):
        if tier != "quick" or (doe + mx + mi[0] + (ev == "dict")) % 2:
            out.append({"k": "mo", "doe": doe, "mx": mx, "min": list(mi), "ev": ev, "L": 3 if tier == "quick" else 4})
    for d in DOE:
        for q in OPT:
            for sp in CFG:
                if q.get("optimizer") in ("BFGS", "OnePlusOne_Cholesky_CMA") and sp != "real":
                    continue
                if tier == "quick" and "max_FEs" not in q and d != "none":
                    continue
                out.append({"k": "cfg", "doe": d, "opt": q, "sp": sp})
    b1 = [[-2, 3], [-2.0, 3.0], "arr1"]
    b2 = ["int2", "float2", "tuple2", "arr2", "mixed2", "desc3", "same3"]
    for b in b1 + b2:
        for n in (1, 2):
            for x0 in ("int", "mat", "mat+y"):
                for mx in (4,) if tier == "quick" else (3, 4, 5, 7):
                    out.append({"k": "fmin", "b": b, "n": n, "x0": x0, "mx": mx, "seed": 0 if n == 1 else 7})
    return out


def run_case(c, ctx):
    if c["k"] == "run":
        L = min(c["L"], c["mx"] + c["n"])
        seqs = list(itertools.product(V, repeat=L)) + [tuple(V[1:2] * i + [v] + V[1:2] * (L - 1 - i)) for v in VX for i in range(L)]
        for s in seqs:
            ctx.new_trace()
            run_once(c, [dec(v) for v in s], ctx)
    elif c["k"] == "cfg":
        cfg_once(c, ctx)
    elif c["k"] == "mo":
        for s in itertools.product(MV, repeat=min(c["L"], -(-c["mx"] // 2) + c["doe"] - 1)):
            ctx.new_trace()
            mo_once(c, s, ctx)
    elif c["k"] == "fault":
        for k in range(c["mx"] + 1):
            ctx.new_trace()
            fault_once(c, k, ctx)
    else:
        fmin_once(c, ctx)


def point(x, ev, ctx):
    return bo.validate([x], SPECS, NM, ev, ctx)[0]


def model_run(c, script):
    """batches the procedure has to evaluate, the values seen, and the reasons for stopping"""
    batches, k, vals = [], 0, []
    while True:
        n = c["n"] if vals else c["doe"]
        b = [script[min(k + j, len(script) - 1)] + 0.001 * (k + j) for j in range(n)]
        k += n
        batches.append(b)
        vals += [v for v in b if math.isfinite(v)]
        best = ((min if c["min"] else max)(vals)) if vals else None
        why = set()
        if k >= c["mx"]:
            why.add("max_FEs")
        if c["t"] is not None and best is not None and (best < c["t"] if c["min"] else best > c["t"]):
            why.add("ftarget")
        if why:
            return batches, vals, best, why


def run_once(c, script, ctx):
    from bayes_optim.utils.exception import RecommendationUnavailableError

    batches, vals, best, why = model_run(c, script)
    calls, sizes = [], []

    def f(x):
        k = len(calls)
        p = point(x, c["ev"], ctx)
        v = script[min(k, len(script) - 1)] + 0.001 * k
        calls.append((p, v))
        return v

    def pf(X):
        sizes.append(len(X))
        return [f(x) for x in X]

    fun = {"parallel_obj_fun": pf} if c["par"] else {"obj_fun": f}
    cls = "BO" if c["n"] == 1 else "ParallelBO"
    with rng.controlled(rng.Env()):
        opt = bo.make(cls, SPECS, eval_type=c["ev"], minimize=c["min"], n_point=c["n"], DoE_size=c["doe"], max_FEs=c["mx"], ftarget=c["t"], aq={"max_FEs": 6, "n_restart": 1, "wait_iter": 1}, **fun)
        try:
            res = opt.run()
        except RecommendationUnavailableError:
            ctx.check(not vals, "run() reports no recommendation although evaluations succeeded")
            res = None
    total = sum(map(len, batches))
    ctx.step(f"run -> {res}, objective values {[v for _, v in calls]}", n=len(calls))
    ctx.check(len(calls) == total, lambda: f"{len(calls)} evaluations were made, the stopping rule (budget {c['mx']}, target {c['t']}) demands {total}")
    ctx.check(opt.eval_count == total, lambda: f"eval_count={opt.eval_count} after {total} evaluations")
    if c["par"]:
        ctx.eq(sizes, [len(b) for b in batches], "the sizes of the evaluated batches")
    if vals:
        ctx.check(res is not None, "no result")
        x, fx, stop = res
        x = point(x, c["ev"], ctx)
        ctx.check(np.ravel(fx).tolist() == [best], lambda: f"run() returns the value {fx}, the best observed is {best}")
        ctx.check(any(bo.key(x) == bo.key(p) and v == best for p, v in calls), lambda: f"run() returns {x}, which was not observed with value {best}: {calls}")
        ctx.check(set(stop) == why, lambda: f"run() stopped because of {stop}, expected {why}")
    ctx.state((c["doe"], c["n"], c["mx"], c["t"], c["min"], c["par"], repr(script)))
    ctx.trace()


DOE = {"int": (3, 3), "float": (2.0, 2), "str": ("3", 3), "expr": ("2 * 2", 4), "none": (None, None), "zero": (0, None)}
OPT = [{}, {"max_FEs": 7}, {"max_FEs": "9"}, {"max_FEs": 8.0, "n_restart": "2", "wait_iter": 1.0}, {"optimizer": "MIES", "max_FEs": 9}, {"optimizer": "BFGS", "max_FEs": 9}, {"optimizer": "OnePlusOne_Cholesky_CMA", "max_FEs": "3 * 4", "wait_iter": "2"}]
CFG = {"real": [["r", -2.0, 2.0], ["r", 0.0, 1.0]], "mixed": SPECS}


def cfg_once(c, ctx):
    """every accepted form of the settings: the design has the requested (by default 5 per variable) size, and the run works through its budget"""
    specs = CFG[c["sp"]]
    nm = spaces.names(specs)
    arg, n = DOE[c["doe"]]
    n = 5 * len(specs) if n is None else n
    sizes, vals = [], []

    def pf(X):
        sizes.append(len(X))
        out = [bo.fval(r) for r in bo.validate(X, specs, nm, "list", ctx)]
        vals.extend(out)
        return out

    for model in ("peak", "smooth") if c["sp"] == "real" else ("peak",):
        if c["opt"].get("optimizer") == "BFGS" and model == "peak":
            continue
        ctx.new_trace()
        del sizes[:], vals[:]
        with rng.controlled(rng.Env()):
            opt = bo.make("BO", specs, model=model, DoE_size=arg, parallel_obj_fun=pf, max_FEs=n + 2, aq=c["opt"])
            res = opt.run()
        ctx.step(f"{model}: run -> {res}")
        ctx.eq(sizes, [n, 1, 1], "sizes of the evaluated batches")
        ctx.eq(float(np.ravel(res[1])[0]), min(vals), "returned value")
        ctx.state(("cfg", c["doe"], repr(c["opt"]), c["sp"], model))
        ctx.trace()


MV = [(0.0, 1.0), (1.0, 0.0), (1.0, 1.0), (0.0, 0.0), ("nan", 0.0), (0.0, "nan")]


def mo_once(c, script, ctx):
    """several objectives: run() evaluates each on every point, stops at the budget and returns exactly the efficient observations"""
    from bayes_optim.utils.exception import RecommendationUnavailableError

    m = 2
    calls = [[], []]

    def val(k, j):
        return dec(script[min(k, len(script) - 1)][j])

    def fun(j):
        def f(x):
            k = len(calls[j])
            calls[j].append(point(x, c["ev"], ctx))
            return val(k, j)

        return f

    with rng.controlled(rng.Env()):
        mi = c["min"]
        opt = bo.make("MOBO", SPECS, eval_type=c["ev"], minimize=mi if len(set(mi)) > 1 else mi[0], n_obj=m, DoE_size=c["doe"], max_FEs=c["mx"], obj_fun=(fun(0), fun(1)), aq={"max_FEs": 6, "n_restart": 1, "wait_iter": 1})
        try:
            res = opt.run()
        except RecommendationUnavailableError:
            res = None
    n, seen = 0, False
    while n * m < c["mx"]:
        b = 1 if seen else c["doe"]
        seen = seen or any(math.isfinite(val(k, 0)) and math.isfinite(val(k, 1)) for k in range(n, n + b))
        n += b
    ctx.step(f"run -> {res}, values {[(val(k, 0), val(k, 1)) for k in range(n)]}", n=n * m)
    ctx.check(len(calls[0]) == len(calls[1]) == n, lambda: f"the objectives were called {len(calls[0])} and {len(calls[1])} times, the budget of {c['mx']} evaluations demands {n} points")
    ctx.check([bo.key(p) for p in calls[0]] == [bo.key(p) for p in calls[1]], "the objectives were evaluated on different points")
    ctx.check(opt.eval_count == n * m, lambda: f"eval_count={opt.eval_count} after {n * m} evaluations")
    hist = [(bo.key(p), (val(k, 0), val(k, 1))) for k, p in enumerate(calls[0]) if math.isfinite(val(k, 0)) and math.isfinite(val(k, 1))]
    ctx.check((res is None) == (not hist), lambda: f"run() returned {res} for the observations {hist}")
    if hist:
        X, F, stop = res
        got = [(bo.key(point(x, c["ev"], ctx)), tuple(f)) for x, f in zip(X, np.asarray(F).tolist())]
        s = [1 if a else -1 for a in mi]
        dom = lambda a, b: all(u * w <= v * w for u, v, w in zip(a, b, s)) and a != b
        eff = {f for _, f in hist if not any(dom(g, f) for _, g in hist)}
        ctx.check({f for _, f in got} == eff, lambda: f"run() returns the values {[f for _, f in got]}, the efficient ones are {sorted(eff)} of {[f for _, f in hist]}")
        ctx.check(all(q in hist for q in got), lambda: f"run() returns {got}, which were not all observed: {hist}")
        ctx.check(set(stop) == {"max_FEs"}, lambda: f"run() stopped because of {stop}")
    ctx.state(("mo", c["doe"], c["mx"], repr(c["min"]), c["ev"], repr(script)))
    ctx.trace()


def fault_once(c, k, ctx):
    """the objective raises at its k-th evaluation: the exception reaches the caller, the batch is not recorded, and the run can be resumed"""
    calls = []
    armed = [True]

    def f(x):
        if armed[0] and len(calls) == k:
            armed[0] = False
            raise Boom(k)
        calls.append(point(x, "list", ctx))
        return 1.0 + 0.01 * len(calls)

    fun = {"parallel_obj_fun": lambda X: [f(x) for x in X]} if c["par"] else {"obj_fun": f}
    with rng.controlled(rng.Env()):
        opt = bo.make("BO" if c["n"] == 1 else "ParallelBO", SPECS, n_point=c["n"], DoE_size=c["doe"], max_FEs=c["mx"], aq={"max_FEs": 6, "n_restart": 1, "wait_iter": 1}, **fun)
        raised = False
        try:
            res = opt.run()
        except Boom:
            raised = True
            ctx.step(f"objective raised at evaluation {k}")
            before = opt.eval_count
            n = len(opt.data) if hasattr(opt, "data") else 0
            ctx.check(before == n and n <= k, lambda: f"{n} observations and eval_count={before} after the failure of evaluation {k}")
            res = opt.run()
        ctx.step(f"run -> {res}")
        ctx.check(raised != armed[0], "the exception raised by the objective did not reach the caller")
        ctx.check(c["mx"] <= opt.eval_count == len(opt.data) < c["mx"] + max(c["n"], c["doe"]), lambda: f"eval_count={opt.eval_count}, {len(opt.data)} observations, budget {c['mx']}")
        ctx.check(np.ravel(res[1])[0] == min(opt.data.fitness), "the returned value is not the best observed")
    ctx.state(("fault", c["doe"], c["n"], c["mx"], c["par"], k))
    ctx.trace()


BND = {"arr1": (np.array([-2]), np.array([3])), "int2": ([-2, 0], [3, 1]), "float2": ([-2.0, 0.0], [3.0, 1.0]), "tuple2": ((-2, 0.0), (3, 1.0)), "arr2": (np.array([-2.0, 0.0]), np.array([3.0, 1.0])), "mixed2": ([-2, 0.0], (3.0, 1)), "desc3": ([4.0, 0.0, -2.0], [5.0, 1.0, 3.0]), "same3": ([-1.0, -1.0, -1.0], [2.0, 0.0, 1.0])}


def fmin_once(c, ctx):
    import bayes_optim

    lo, hi = (c["b"][0], c["b"][1]) if isinstance(c["b"], list) else BND[c["b"]]
    L, U = np.ravel(lo).astype(float), np.ravel(hi).astype(float)
    dim = len(L)
    calls = []

    def f(x, a, b):
        x = [float(v) for v in x]
        ctx.check(len(x) == dim and all(l <= v <= u for l, v, u in zip(L, x, U)), lambda: f"the objective was called with {x} outside [{L}, {U}]")
        ctx.check((a, b) == (0.25, "q"), lambda: f"extra arguments {(a, b)}")
        v = sum((t - a) ** 2 for t in x) + 0.1 * x[0]
        calls.append((x, v))
        return v

    mat = [[float(l + (u - l) * w) for l, u in zip(L, U)] for w in (0.1, 0.45, 0.9)]
    y0 = [7.5, 6.25, 9.0]
    kw = {"x0": 3} if c["x0"] == "int" else {"x0": mat} if c["x0"] == "mat" else {"x0": mat, "y0": y0}
    res = bayes_optim.fmin(f, lo, hi, args=(0.25, "q"), n_point=c["n"], max_FEs=c["mx"], seed=c["seed"], acquisition_optimization={"max_FEs": 20, "n_restart": 1, "wait_iter": 1}, **kw)
    x, fx, it, ev, data = res
    ctx.step(f"fmin -> {x}, {fx}, {it}, {ev}", n=len(calls))
    warm = mat if c["x0"] != "int" else []
    n_warm_calls = len(warm) if c["x0"] == "mat" else 0
    new = calls[n_warm_calls:]
    if n_warm_calls:
        ctx.eq([p for p, _ in calls[:n_warm_calls]], mat, "the initial points evaluated first")
    ctx.check(ev == len(new), lambda: f"fmin reports {ev} evaluations, {len(new)} were made besides the {len(warm)} given initial points")
    ctx.check(c["mx"] <= ev < c["mx"] + max(c["n"], 3), lambda: f"{ev} evaluations for a budget of {c['mx']} with batches of {c['n']}")
    hist = new + [(p, v) for p, v in (calls[:n_warm_calls] if c["x0"] == "mat" else zip(mat, y0) if c["x0"] == "mat+y" else [])]
    best = min(v for _, v in hist)
    ctx.check(float(np.ravel(fx)[0]) == best, lambda: f"fmin returns {fx}, the best value observed is {best}")
    ctx.check(any(p == [float(v) for v in x] and v == best for p, v in hist), lambda: f"fmin returns {x}, not observed with value {best}")
    ctx.check(it == len(data), lambda: f"{it} iterations but {len(data)} groups of trial points")
    flat = [[float(v) for v in r] for d in data for r in np.atleast_2d(d)]
    ctx.check(flat == [p for p, _ in new], lambda: f"the trial points per iteration {flat} are not the evaluated points {[p for p, _ in new]}")
    sizes = [len(np.atleast_2d(d)) for d in data]
    ctx.check(sizes == ([3] if c["x0"] == "int" else []) + [c["n"]] * (len(sizes) - (c["x0"] == "int")), lambda: f"sizes of the iterations {sizes}")
    ctx.state(("fmin", repr(c["b"]), c["n"], c["x0"], c["mx"]))
    ctx.trace()
