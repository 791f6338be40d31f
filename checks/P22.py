"""P22: the internal optimizers stay in the box, count correctly, stop, and return the best point they evaluated."""
import itertools
import math

import numpy as np

from mc import bo, rng, spaces

LEVEL = "model_checking"
ASSUMPTIONS = ["problems with constraints are covered by P09, except that the (1+1) strategies never give up a feasible point and that MIES prefers the feasible among equally good points", "objective values are finite", "random draws come from numpy's global generator"]
CHUNK = 2
SP = {
    "r1": [["r", -5.0, 5.0]],
    "r2": [["r", -5.0, 5.0], ["r", 0.0, 1.0]],
    "rp": [["r", -1.0, 2.0, {"precision": 1}], ["r", 0.05, 0.93, {"precision": 1}]],
    "tiny": [["r", 0.0, 1e-9], ["r", 1e6, 1e6 + 0.25]],
    "mix": [["d", ["x", "y", "z"]], ["r", -2.0, 2.0, {"precision": 1}], ["i", 0, 9, 3], ["b"]],
    "cat": [["d", ["p", "q", "r"]], ["s", ["u", "v"]]],
    "int": [["i", -4, 4], ["i", 1, 10, 4]],
    "int2": [["i", 0, 9, 5], ["i", -7, 8, 4]],
}


def BOUNDS(tier):
    return ("(1+1)-CMA-ES and its Cholesky variant: all outcome sequences of length %d over 3 values with ties, min/max; the best value once at every position of runs with up to two restarts; given starting points (in the box and on its boundary), step sizes and (also indefinite) covariances; with constraints all sequences of %d values and feasibilities; MIES: the optimum at every evaluation index of the first %d, with constraints the only feasible point at every index; all three with every single deviating draw site on 3-6 spaces and with targets; restarted maximization of the acquisition function with all outcome orders of 3 restarts" % ((6, 4, 34) if tier == "quick" else (8, 6, 54)))


def cases(tier):
    L = 6 if tier == "quick" else 8
    out = []
    for cls in ("OnePlusOne_CMA", "OnePlusOne_Cholesky_CMA"):
        for mn in (True, False):
            for sp in ("r1", "rp"):
                for first in itertools.product(range(3), repeat=2):
                    out.append({"k": "script", "cls": cls, "min": mn, "sp": sp, "pre": list(first), "L": L})
        for sp in ("r1", "r2", "rp", "tiny"):
            for mn in (True, False):
                for t in (None, 0.5):
                    out.append({"k": "dev", "cls": cls, "sp": sp, "min": mn, "t": t, "bound": 1 if tier == "quick" else 2})
        for sp in ("r1", "r2", "rp"):
            for mn in (True, False):
                out.append({"k": "start", "cls": cls, "sp": sp, "min": mn})
        for mn, first in itertools.product((True, False), itertools.product(range(6), repeat=2)):
            out.append({"k": "feas", "cls": cls, "sp": "r1", "min": mn, "pre": list(first), "L": 4 if tier == "quick" else 6})
        for nr in (0, 1, 2):
            out.append({"k": "restart", "cls": cls, "nr": nr})
        for nr, mn in itertools.product((1, 2), (True, False)):
            for at in range(0, 70 if tier == "quick" else 160):
                out.append({"k": "best_at", "cls": cls, "nr": nr, "min": mn, "at": at})
    for sp in ("r2", "mix", "cat", "int", "int2", "tiny"):
        for mn in (True, False):
            for el in (True, False):
                for k in range(0, 34 if tier == "quick" else 54, 2 if el else 1):
                    out.append({"k": "mies", "sp": sp, "min": mn, "el": el, "at": k})
            if sp != "cat":
                for k in range(0, 24 if tier == "quick" else 44):
                    out.append({"k": "mfeas", "sp": sp, "min": mn, "at": k})
            out.append({"k": "dev", "cls": "MIES", "sp": sp, "min": mn, "t": None, "bound": 1})
    for sp in ("r2", "rp", "mix", "int", "int2", "tiny"):
        for opt in ("BFGS", "OnePlusOne_Cholesky_CMA", "MIES"):
            if opt != "MIES" and sp in ("mix", "int", "int2"):
                continue
            for nr, w in itertools.product((1, 2, 3), (1, 2, 5)):
                out.append({"k": "argmax", "sp": sp, "opt": opt, "nr": nr, "w": w})
    return out


def run_case(c, ctx):
    globals()["k_" + c["k"]](c, ctx, SP[c["sp"]] if "sp" in c else SP["r2"])


class Rec:
    """records every evaluated point and checks that it is admissible"""

    def __init__(self, specs, nm, ctx, f):
        self.specs, self.nm, self.ctx, self.f, self.calls = specs, nm, ctx, f, []

    def __call__(self, x):
        k = len(self.calls)
        p = [v for v in (x.tolist() if hasattr(x, "tolist") else list(x))]
        for s, v, n in zip(self.specs, p, self.nm):
            if s[0] == "r":
                v = float(v)
            why = spaces.admissible(s, v)
            self.ctx.check(why is None, lambda: f"evaluation {k}: {n} {s}: {why}")
        self.ctx.check(len(p) == len(self.specs), lambda: f"evaluated {p}")
        y = self.f(k, p)
        self.calls.append((p, y))
        return y


def verdict(c, rec, x, f, count, stop, mn, ctx, budget, slack):
    vals = [v for _, v in rec.calls]
    best = min(vals) if mn else max(vals)
    x = [v for v in (x.tolist() if hasattr(x, "tolist") else list(x))]
    f = float(np.ravel(f)[0])
    ctx.check(f == best, lambda: f"returned value {f}, the best evaluated is {best} among {vals}")
    ctx.check(any(p == x and v == best for p, v in rec.calls), lambda: f"the returned point {x} was not evaluated with the returned value {best}")
    ctx.check(count == len(vals), lambda: f"{count} evaluations counted, {len(vals)} made")
    ctx.check(len(vals) <= budget + slack, lambda: f"{len(vals)} evaluations for a budget of {budget}")


def k_script(c, ctx, specs):
    from bayes_optim.acquisition import optim

    nm = spaces.names(specs)
    V = [0.0, 1.0, 2.0]
    L = c["L"]
    for tail in itertools.product(range(3), repeat=L - 2):
        seq = [V[i] for i in c["pre"] + list(tail)]
        rec = Rec(specs, nm, ctx, lambda k, p: seq[min(k, L - 1)])
        with rng.controlled(rng.Env(stream=7)):
            o = getattr(optim, c["cls"])(search_space=spaces.build(specs), obj_fun=rec, max_FEs=L, minimize=c["min"], ftol=1e-12, xtol=1e-12, n_restart=0)
            x, f, stop = o.run()
        ctx.step(f"values {seq}", n=len(rec.calls))
        verdict(c, rec, x, f, o.eval_count, stop, c["min"], ctx, L, 0)
        ctx.check(len(rec.calls) == L and "FEs" in stop, lambda: f"stopped after {len(rec.calls)} of {L} evaluations: {stop}")
        h = [float(np.ravel(v)[0]) for v in o.hist_fopt]
        cum = list(itertools.accumulate([v for _, v in rec.calls], min if c["min"] else max))[1:]
        ctx.check(h == cum, lambda: f"the history of the best values is {h}, expected {cum}")
        ctx.state((c["cls"], c["min"], c["sp"], tuple(seq)))
        ctx.trace()


def smooth(specs, p, k):
    s = 0.0
    for sp, v in zip(specs, p):
        if sp[0] == "r":
            s += (float(v) - 0.3 * (sp[1] + sp[2])) ** 2
        elif sp[0] == "i":
            s += 0.1 * (v - sp[1]) ** 2
        else:
            s += 0.7 * spaces.values(sp).index(v)
    return s


def k_dev(c, ctx, specs):
    from bayes_optim.acquisition import optim

    nm = spaces.names(specs)
    sign = 1.0 if c["min"] else -1.0
    budget = 14 if c["cls"] != "MIES" else 24

    def run(env):
        rec = Rec(specs, nm, ctx, lambda k, p: sign * smooth(specs, p, k))
        if c["cls"] == "MIES":
            o = optim.MIES(spaces.build(specs), rec, max_eval=budget, minimize=c["min"])
            x, f, stop = o.optimize()
            slack = 10
        else:
            o = getattr(optim, c["cls"])(search_space=spaces.build(specs), obj_fun=rec, max_FEs=budget, minimize=c["min"], ftarget=None if c["t"] is None else sign * c["t"])
            x, f, stop = o.run()
            slack = 1
        ctx.step(f"-> {x} {f} {stop}", n=len(rec.calls))
        verdict(c, rec, x, f, o.eval_count, stop, c["min"], ctx, budget, slack)
        if c["t"] is not None:
            hits = [k for k, (_, v) in enumerate(rec.calls) if sign * v <= c["t"]]
            ctx.check(bool(hits) == ("ftarget" in stop), lambda: f"target {sign * c['t']} and best {f}, but stopped for {stop}")
            # the initial point is checked together with the first step
            ctx.check(not hits or len(rec.calls) <= max(hits[0], 1) + 1, lambda: f"the target was hit at evaluation {hits[0]}, but {len(rec.calls)} evaluations were made")
        ctx.state((c["cls"], c["sp"], c["min"], c["t"], bo.key([v for v in (x.tolist() if hasattr(x, "tolist") else x)])))
        ctx.trace()

    rng.explore(run, bound=c["bound"], by_site=True, ctx=ctx)


def k_restart(c, ctx, specs):
    """a flat objective stagnates: it restarts exactly as often as allowed and then stops"""
    from bayes_optim.acquisition import optim

    nm = spaces.names(specs)
    for stream in range(6):
        for minimize in (True, False):
            starts = []
            rec = Rec(specs, nm, ctx, lambda k, p: 1.0)
            with rng.controlled(rng.Env(stream=stream)):
                o = getattr(optim, c["cls"])(search_space=spaces.build(specs), obj_fun=rec, max_FEs=4000, minimize=minimize, n_restart=c["nr"])
                x, f, stop = o.run()
            ctx.step(f"{len(rec.calls)} evaluations, {stop}", n=len(rec.calls))
            ctx.check(len(rec.calls) < 4000 and bool(stop), lambda: f"no stop on a flat objective: {stop}")
            verdict(c, rec, x, f, o.eval_count, stop, minimize, ctx, 4000, 0)
            ctx.state((c["cls"], c["nr"], stream, len(rec.calls)))
            c.setdefault("_n", []).append(len(rec.calls))
            ctx.trace()


def k_start(c, ctx, specs):
    """given starting points, step sizes and covariances (also unusable ones): the start is evaluated first and never lost"""
    from bayes_optim.acquisition import optim

    nm = spaces.names(specs)
    d = len(specs)
    sign = 1.0 if c["min"] else -1.0
    lo, hi = np.array([s[1] for s in specs]), np.array([s[2] for s in specs])
    full = 0.5 * np.ones((d, d)) + 0.5 * np.eye(d)
    starts = [lo, hi, spaces.build(specs).round([list(lo + 0.25 * (hi - lo))]).ravel().astype(float)]
    for (i, x0), form, sg, C in itertools.product(enumerate(starts), ("list", "arr", "str"), (None, 0.3, 5.0), (None, full, -np.eye(d), np.diag([1e-3] * d))):
        x0 = [float(v) for v in x0]
        rec = Rec(specs, nm, ctx, lambda k, p: sign * smooth(specs, p, k))
        with rng.controlled(rng.Env(stream=i)):
            o = getattr(optim, c["cls"])(search_space=spaces.build(specs), obj_fun=rec, x0={"list": x0, "arr": np.array(x0), "str": str(x0)}[form], sigma0=sg, C0=C, max_FEs=9, minimize=c["min"], ftol=1e-15, xtol=1e-15)
            x, f, stop = o.run()
        ctx.step(f"x0={x0} sigma0={sg} C0={None if C is None else C.tolist()} -> {x} {f} {stop}", n=len(rec.calls))
        verdict(c, rec, x, f, o.eval_count, stop, c["min"], ctx, 9, 0)
        ctx.check([float(v) for v in rec.calls[0][0]] == x0, lambda: f"the search starts at {rec.calls[0][0]} instead of {x0}")
        ctx.state((c["cls"], c["sp"], c["min"], i, form, sg, None if C is None else C.tobytes()))
        ctx.trace()
    # the output does not influence the search
    for g in (None, lambda p: float(p[0]) - 1.0):
        runs = []
        for verbose in (False, True):
            rec = Rec(specs, nm, ctx, lambda k, p: sign * smooth(specs, p, k))
            with rng.controlled(rng.Env(stream=2)):
                o = getattr(optim, c["cls"])(search_space=spaces.build(specs), obj_fun=rec, g=g, max_FEs=9, minimize=c["min"], verbose=verbose)
                x, f, stop = o.run()
            runs.append((rec.calls, [float(v) for v in x], float(np.ravel(f)[0])))
        ctx.step(f"quiet and verbose, {'with' if g else 'without'} a constraint", n=len(rec.calls))
        ctx.check(runs[0] == runs[1], lambda: f"a verbose search differs from a quiet one: {runs}")
        ctx.trace()


def k_feas(c, ctx, specs):
    """all sequences of objective values and feasibility: an infeasible point never takes the place of a feasible one"""
    from bayes_optim.acquisition import optim

    nm = spaces.names(specs)
    sign = 1.0 if c["min"] else -1.0
    for viol, kind in ((0.1, "g"), (3.0, "g"), (0.5, "h")):
        for tail in itertools.product(range(6), repeat=c["L"] - 2):
            seq = [(sign * (0.0, 1.0, 2.0)[i % 3], i < 3) for i in c["pre"] + list(tail)]
            order = {}  # point -> number of its first appearance
            num = lambda p: order.setdefault(repr([float(v) for v in np.ravel(p)]), len(order))
            rec = Rec(specs, nm, ctx, lambda k, p: seq[min(num(p), len(seq) - 1)][0])
            con = lambda x: np.array([(-1.0 if kind == "g" else 0.0) if seq[min(num(x), len(seq) - 1)][1] else viol])
            with rng.controlled(rng.Env(stream=7)):
                o = getattr(optim, c["cls"])(search_space=spaces.build(specs), obj_fun=rec, max_FEs=c["L"], minimize=c["min"], ftol=1e-12, xtol=1e-12, n_restart=0, **{kind: con})
                x, f, stop = o.run()
            ctx.step(f"values and feasibility {seq}, violation {viol}", n=len(rec.calls))
            k, v = num(x), float(np.ravel(f)[0])
            ctx.check(k < len(seq) and v == seq[k][0], lambda: f"{x} was returned with the value {v}; evaluated {seq}")
            ctx.check(k == 0 or seq[k][1], lambda: f"the infeasible point number {k} was returned; values and feasibility {seq}, violation {viol}")
            ctx.check(not seq[0][1] or sign * v <= sign * seq[0][0], lambda: f"the feasible start {seq[0]} was given up for {seq[k]}")
            if all(s for _, s in seq):
                verdict(c, rec, x, f, o.eval_count, stop, c["min"], ctx, c["L"], 0)
            ctx.state((c["cls"], c["min"], viol, kind, tuple(seq)))
            ctx.trace()


def k_best_at(c, ctx, specs):
    """stagnation forces restarts; the best value occurs once, at every position in turn"""
    from bayes_optim.acquisition import optim

    specs = SP["r1"]
    nm = spaces.names(specs)
    sign = 1.0 if c["min"] else -1.0
    for pat in ((5.0,), (5.0, 6.0), (7.0, 5.0, 6.0)):
        rec = Rec(specs, nm, ctx, lambda k, p: sign * (1.0 if k == c["at"] else pat[k % len(pat)]))
        with rng.controlled(rng.Env(stream=5)):
            o = getattr(optim, c["cls"])(search_space=spaces.build(specs), obj_fun=rec, max_FEs=170, minimize=c["min"], ftol=1e-4, xtol=1e-4, n_restart=c["nr"])
            x, f, stop = o.run()
        ctx.step(f"best value at evaluation {c['at']}: {x} {f} {stop} after {len(rec.calls)}", n=len(rec.calls))
        verdict(c, rec, x, f, o.eval_count, stop, c["min"], ctx, 170, 1)
        ctx.state((c["cls"], c["nr"], c["min"], c["at"], pat, len(rec.calls)))
        ctx.trace()


def k_mies(c, ctx, specs):
    from bayes_optim.acquisition import optim

    nm = spaces.names(specs)
    sign = 1.0 if c["min"] else -1.0
    rec = Rec(specs, nm, ctx, lambda k, p: sign * (0.0 if k == c["at"] else 5.0 + ((k * 7) % 11) * 0.5))
    with rng.controlled(rng.Env(stream=3)):
        o = optim.MIES(spaces.build(specs), rec, max_eval=33 if c["at"] < 34 else 53, minimize=c["min"], elitism=c["el"])
        x, f, stop = o.optimize()
    ctx.step(f"optimum at evaluation {c['at']} -> {x} {f} {stop}", n=len(rec.calls))
    verdict(c, rec, x, f, o.eval_count, stop, c["min"], ctx, 33 if c["at"] < 34 else 53, 10)
    ctx.check(stop.get("funcalls") == len(rec.calls), lambda: f"funcalls={stop.get('funcalls')} of {len(rec.calls)}")
    ctx.state((c["sp"], c["min"], c["el"], c["at"]))
    ctx.trace()


def k_mfeas(c, ctx, specs):
    """MIES with constraints, all points equally good, exactly one of them feasible: it is returned once it was evaluated"""
    from bayes_optim.acquisition import optim

    nm = spaces.names(specs)
    for kind, viol, flat in (("g", 0.1, 1.0), ("g", 3.0, -4.0), ("h", 0.5, 0.0)):
        order = {}
        num = lambda p: order.setdefault(repr([v.item() if hasattr(v, "item") else v for v in (p.tolist() if hasattr(p, "tolist") else list(p))]), len(order))
        rec = Rec(specs, nm, ctx, lambda k, p: (num(p), flat)[1])
        con = lambda x: np.array([(-1.0 if kind == "g" else 0.0) if num(x) == c["at"] else viol])
        with rng.controlled(rng.Env(stream=3)):
            o = optim.MIES(spaces.build(specs), rec, max_eval=33 if c["at"] < 34 else 53, minimize=c["min"], **{"ineq_func" if kind == "g" else "eq_func": con})
            x, f, stop = o.optimize()
        ctx.step(f"point {c['at']} feasible -> {x} {f} {stop}", n=len(rec.calls))
        ctx.check(num(x) < len(order) and any(num(p) == num(x) for p, _ in rec.calls), lambda: f"{x} was returned but not evaluated")
        if any(num(p) == c["at"] for p, _ in rec.calls):
            ctx.check(num(x) == c["at"], lambda: f"point {num(x)}, which violates the constraint by {viol}, was returned instead of the feasible point {c['at']} of the same value {flat}")
            ctx.check(float(np.ravel(f)[0]) == flat, lambda: f"the returned value is {f}, all points have {flat}")
        ctx.state((c["sp"], c["min"], kind, viol, c["at"]))
        ctx.trace()


def k_argmax(c, ctx, specs):
    from bayes_optim.acquisition.optim import argmax_restart
    import logging

    nm = spaces.names(specs)
    # the criterion has one plateau per restart: enumerate all orders of the restart outcomes
    for order in itertools.permutations(range(3)):
        rec = None

        def f(k, p):
            return -smooth(specs, p, k) * 0.1 + order[k // 40 % 3] * 0.0

        rec = Rec(specs, nm, ctx, f)

        def crit(x):
            v = rec(np.ravel(x) if c["opt"] == "BFGS" else x)
            if c["opt"] == "BFGS":
                p = np.ravel(np.array(x, dtype=float))
                g = np.array([-0.2 * (u - 0.3 * (s[1] + s[2])) for u, s in zip(p, specs)])
                return np.array([v]), g.reshape(-1, 1)
            return v

        if c["opt"] == "BFGS":
            rec.specs = [s[:3] for s in specs]
        with rng.controlled(rng.Env(stream=11 + sum(v * 7**i for i, v in enumerate(order)))):
            x, v = argmax_restart(crit, spaces.build(specs), eval_budget=45, n_restart=c["nr"], wait_iter=c["w"], optimizer=c["opt"], logger=logging.getLogger("q"))
        ctx.step(f"argmax -> {x} {v}", n=len(rec.calls))
        v = float(np.ravel(v)[0])
        x = [u for u in (x.tolist() if hasattr(x, "tolist") else list(x))]
        bo.validate([[float(u) if s[0] == "r" else u for u, s in zip(x, specs)]], specs, nm, "list", ctx)
        true = -smooth(specs, x, 0) * 0.1
        ctx.check(abs(v - true) <= 1e-9, lambda: f"the returned value {v} is not the criterion value {true} at the returned point {x}")
        if c["opt"] != "BFGS":
            best = max(y for _, y in rec.calls)
            ctx.check(v == best, lambda: f"the returned value {v} is not the best of all restarts {best}")
        else:
            prec = any(len(s) > 3 and "precision" in s[3] for s in specs)
            ctx.check(prec or v >= max(y for _, y in rec.calls) - 1e-9, lambda: f"the returned value {v} is worse than an evaluated one {max(y for _, y in rec.calls)}")
        slack = {"MIES": 10, "BFGS": 45, "OnePlusOne_Cholesky_CMA": 1}[c["opt"]]
        ctx.check(len(rec.calls) <= 45 + slack + 2 * c["nr"], lambda: f"{len(rec.calls)} evaluations of the criterion for a budget of 45")
        ctx.state((c["sp"], c["opt"], c["nr"], c["w"], order))
        ctx.trace()
