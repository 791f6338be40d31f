"""P16: optimization over conditional spaces - every candidate is a complete, consistent configuration."""
import contextlib
import itertools
import math

import numpy as np

from mc import bo, rng, spaces
from checks import P15

LEVEL = "model_checking"
ASSUMPTIONS = ["the forests have 3 trees", "candidates are told in the order in which they were asked", "continuous draws and the draws of the acquisition search come from a fixed stream; the choice of the subspaces is enumerated"]
CHUNK = 1

# (name, spec, condition text, (selector, value))
SPC = {
    "two": [("sel", ["d", ["a", "b"]], None, None), ("u", ["r", 0.0, 1.0], "sel == 'a'", ("sel", "a")), ("v", ["i", 0, 5], "sel == 'b'", ("sel", "b")), ("free", ["r", -1.0, 1.0], None, None)],
    "zero": [("k", ["i", 0, 2], None, None), ("p", ["i", 0, 3], "k == 0", ("k", 0)), ("q", ["b"], "k == 1", ("k", 1)), ("w", ["d", ["", "x"]], "k == 0", ("k", 0)), ("r", ["r", -2.0, 2.0], "k == 1", ("k", 1))],
    "bool": [("flag", ["b"], None, None), ("c", ["o", [0, 1, 2]], "flag == False", ("flag", False)), ("d", ["r", 0.0, 1.0, {"precision": 1}], "flag == True", ("flag", True)), ("z", ["i", 0, 30, 2], None, None)],
    "deep": [("s", ["d", ["a", "b"]], None, None), ("t", ["i", -1, 1], "s == 'a'", ("s", "a")), ("m", ["r", 0.0, 1.0], "t == -1", ("t", -1)), ("n", ["i", 0, 9], "t == 1", ("t", 1)), ("o", ["d", ["x", "y", "z"]], "s == 'b'", ("s", "b"))],
    "forest": [("e", ["b"], None, None), ("g", ["d", ["p", "q"]], None, None), ("e1", ["i", 0, 9], "e == True", ("e", True)), ("e2", ["r", 0.0, 1.0], "e == False", ("e", False)), ("g1", ["r", -1.0, 0.0], "g == 'p'", ("g", "p")), ("g2", ["i", 0, 4], "g == 'q'", ("g", "q")), ("base", ["r", 5.0, 6.0], None, None)],
}
V = [-1.0, 2.0, "nan"]


def BOUNDS(tier):
    return f"all splits of the initial pass into requests of 1-3 candidates x every choice of the requests that are answered before the next one (the others are dropped); {len(SPC)} conditional spaces x batch 2-3 x minimize/maximize: all sequences of {2 if tier == 'quick' else 3} ask/tell rounds after the initial pass over the subspaces, with every choice of the subspaces by the generator in one round and all result patterns over {V} in one round; every selector combination of P15-like forests is covered by P15; histories of 36 candidates after the initial pass; after every tell the surrogate of each subspace concerned must have been trained on all its observations"


def cases(tier):
    out = []
    for s in SPC:
        for n in (2, 3):
            for mn in (True, False):
                for pat in itertools.product(range(len(V)), repeat=min(n, 2)):
                    out.append({"sp": s, "n": n, "min": mn, "pat": list(pat), "rounds": 2 if tier == "quick" else 4, "k": "run"})
        for n in (2, 3):
            out.append({"sp": s, "n": n, "min": True, "k": "choices"})
        if s in ("two", "bool", "forest"):  # long histories
            for n, mn in itertools.product((2, 3), (True, False)):
                out.append({"sp": s, "n": n, "min": mn, "pat": [2], "rounds": 36 // n, "k": "run"})
        for first in (1, 2, 3):
            out.append({"sp": s, "n": 2, "min": True, "k": "pass", "first": first})
    return out


class Choices(rng.Env):
    """the generator's choice of subspaces is scripted: `choice(n, k)` is answered from `script`"""

    def __init__(self, script, n_sub, stream=3):
        super().__init__({}, False, stream)
        self.script, self.n_sub, self.used = list(script), n_sub, 0

    def choice(self, a, size=None, replace=True, p=None):
        if np.isscalar(a) and int(a) == self.n_sub and size is not None and replace and self.script:
            n = int(np.prod(size))
            if n <= len(self.script):
                out, self.script = self.script[:n], self.script[n:]
                self.used += n
                return np.array(out)
        return super().choice(a, size, replace, p)


def small_forests():
    from bayes_optim.surrogate.random_forest import RandomForest

    d = RandomForest.__init__.__defaults__
    if d and d[0] == 100:
        RandomForest.__init__.__defaults__ = (3,) + tuple(d[1:])


@contextlib.contextmanager
def fits():
    """what the surrogates are trained on"""
    from bayes_optim.surrogate.random_forest import RandomForest

    log, old = [], RandomForest.fit

    def fit(self, X, y, *a, **kw):
        rows = [list(r) for r in (X.tolist() if hasattr(X, "tolist") else X)]
        log.append((rows, np.array(y, dtype=float).ravel().copy()))
        return old(self, X, y, *a, **kw)

    RandomForest.fit = fit
    try:
        yield log
    finally:
        RandomForest.fit = old


def trained(ctx, log, k, sub, data):
    """one of the surrogates was trained on exactly the observations of the subspace"""
    want = [([x[n] for n in x if n in sub[1]], v) for x, v in data]
    canon = lambda r: sorted((type(v).__name__.replace("str_", "str"), str(v)) for v in r)
    f = np.array([v for _, v in want])
    near = [(rows, y) for rows, y in log if len(rows) == len(want) and len(y) == len(f)]
    for rows, y in near:
        if [canon(r) for r in rows] != [canon(r) for r, _ in want]:
            continue
        if np.ptp(f) == 0:
            return
        s = np.sum((y - y.mean()) * (f - f.mean())) / np.sum((f - f.mean()) ** 2)
        if s > 0 and np.allclose(y, y.mean() + s * (f - f.mean()), rtol=1e-6, atol=1e-9 * np.max(np.abs(y))):
            return
    ctx.check(False, lambda: f"no surrogate was trained on the observations {want} of the subspace {sub}; trained on: {log}")


def mk(its):
    from bayes_optim.search_space import SearchSpace

    vs = []
    for nm, spec, cond, _ in its:
        v = spaces.build_var(spec, nm)
        if cond:
            v.set_conditions(cond)
        vs.append(v)
    return SearchSpace(vs)


def subspaces(its):
    """all consistent selector assignments"""
    par = {}
    for it in its:
        if it[3]:
            par.setdefault(it[3][0], []).append(it[3][1])
    byname = {it[0]: it for it in its}
    res = []
    for combo in itertools.product(*[list(dict.fromkeys(v)) for v in par.values()]):
        val = dict(zip(par, combo))

        def act(nm):
            it = byname[nm]
            return it[3] is None or (act(it[3][0]) and spaces.same(val[it[3][0]], it[3][1]))

        a = [it[0] for it in its if act(it[0])]
        e = ({k: v for k, v in val.items() if k in a}, [n for n in a if n not in val])
        if e not in res:
            res.append(e)
    return res


def consistent(ctx, x, its, subs):
    """a complete configuration: every variable named, active ones admissible, inactive ones None; returns the subspace"""
    names = [it[0] for it in its]
    ctx.check(isinstance(x, dict) and set(x) == set(names), f"candidate {x!r} does not name exactly the variables {names}")
    hits = []
    for k, (key, free) in enumerate(subs):
        ok = True
        for it in its:
            v = x[it[0]]
            if it[0] in key:
                ok &= v is not None and spaces.same(v, key[it[0]])
            elif it[0] in free:
                ok &= v is not None and spaces.admissible(it[1], v) is None
            else:
                ok &= v is None
        if ok:
            hits.append(k)
    ctx.check(len(hits) == 1, f"candidate {x!r} is not a configuration of exactly one subspace: {[(k, f) for k, f in subs]}")
    return hits[0]


def drive(case, ctx, script, rounds):
    from bayes_optim.extension import ConditionalBO

    small_forests()
    its = SPC[case["sp"]]
    subs = subspaces(its)
    n = case["n"]
    env = Choices(script, len(subs))
    ctx.new_trace()
    log, hits_log, owner = [], [], []
    f = [0]
    with rng.controlled(env):
        opt = ConditionalBO(search_space=mk(its), obj_fun=None, minimize=case["min"], n_point=n, acquisition_optimization=dict(bo.AQ))
        n_init = math.ceil(len(subs) / n)
        told = 0
        for r in range(n_init + rounds):
            X = opt.ask()
            ctx.check(isinstance(X, list) and len(X) == n, f"{n} candidates requested, got {X!r}")
            hit = [consistent(ctx, x, its, subs) for x in X]
            hits_log += hit
            ctx.step(f"ask -> {X}")
            vals = []
            for j in range(n):
                f[0] += 1
                base = (f[0] * 7) % 11 + 0.25
                vals.append(base)
            pat = case.get("pat")
            if pat and r == n_init:
                vals[: len(pat)] = [{"nan": float("nan")}.get(V[p], V[p]) for p in pat]
            with fits() as seen:
                opt.tell([dict(x) for x in X], list(vals))
            ctx.step(f"tell {vals}")
            told += n
            log += [(x, v) for x, v in zip(X, vals) if math.isfinite(v)]
            owner += [k for k, v in zip(hit, vals) if math.isfinite(v)]
            for k in sorted({k for k, v in zip(hit, vals) if math.isfinite(v)}):
                trained(ctx, seen, k, subs[k], [d for d, o in zip(log, owner) if o == k])
            ctx.eq(opt.eval_count, told, "number of evaluations")
            ctx.eq(opt.iter_count, r + 1, "number of iterations")
            rows = opt.data.to_dict()
            ctx.eq(len(rows), len(log), "number of recorded observations")
            for got, fit, (x, v) in zip(rows, np.ravel(opt.data.fitness), log):
                ctx.check(set(map(str, got)) == set(x) and all((got[k] is None and x[k] is None) or (got[k] is not None and x[k] is not None and spaces.same(got[k], x[k])) for k in x), f"recorded {got}, told {x}")
                ctx.eq(float(fit), v, f"recorded value of {x}")
            best = (min if case["min"] else max)(v for _, v in log)
            xo = opt.recommend()
            ctx.eq(float(np.ravel(xo.fitness)[0]), best, "the recommended value")
            rec = xo.to_dict()
            ctx.check(any(v == best and all((rec[k] is None) == (x[k] is None) and (x[k] is None or spaces.same(rec[k], x[k])) for k in x) for x, v in log), f"the recommendation {rec} was not observed with the value {best}")
            ctx.state((case["sp"], case["min"], r, str(log)))
    ctx.check(set(hits_log[: len(subs)]) == set(range(len(subs))), f"the first {len(subs)} candidates do not cover every subspace: {hits_log[:len(subs)]}")
    ctx.trace()
    ctx.sample(f"candidates by subspace: {hits_log}")
    return hits_log, env


def compositions(n):
    """all ways to write at least n as a sum of 1, 2, 3 (the last part may exceed)"""
    if n <= 0:
        return [[]]
    return [[k] + r for k in (1, 2, 3) for r in compositions(n - k)]


def one_pass(case, ctx):
    """the initial pass visits every subspace, no matter how it is split and which requests are answered"""
    from bayes_optim.extension import ConditionalBO

    small_forests()
    its = SPC[case["sp"]]
    subs = subspaces(its)
    for split in compositions(len(subs)):
        if split[0] != case["first"]:
            continue
        for told in itertools.product((False, True), repeat=len(split)):
            if ctx.tier == "quick" and len(split) > 2 and any(told[1:-1]) and not all(told):
                continue
            ctx.new_trace()
            with rng.controlled(rng.Env()):
                opt = ConditionalBO(search_space=mk(its), obj_fun=None, minimize=case["min"], n_point=case["n"], acquisition_optimization=dict(bo.AQ))
                hits, log, evals = [], [], 0
                for n, t in zip(split, told):
                    X = opt.ask(n)
                    ctx.check(isinstance(X, list) and len(X) == n, lambda: f"{n} candidates requested, got {X!r}")
                    ctx.step(f"ask({n}) -> {X}")
                    hits += [consistent(ctx, x, its, subs) for x in X]
                    if t:
                        vals = [float((7 * (len(hits) + j)) % 11) for j in range(n)]
                        opt.tell([dict(x) for x in X], vals)
                        ctx.step(f"tell({vals})")
                        log += vals
                        evals += n
                        ctx.check(len(opt.data) == len(log) and float(np.ravel(opt.recommend().fitness)[0]) == min(log), lambda: f"the recommendation is {opt.recommend()} for the values {log}")
                    ctx.eq(opt.eval_count, evals, "number of evaluations")
                ctx.check(set(hits[: len(subs)]) == set(range(len(subs))), lambda: f"the first {len(subs)} candidates, requested as {split} (answered: {told}), do not cover every subspace: {hits}")
            ctx.state((case["sp"], tuple(split), told))
            ctx.trace()


def run_case(case, ctx):
    if case["k"] == "pass":
        return one_pass(case, ctx)
    its = SPC[case["sp"]]
    subs = subspaces(its)
    n = case["n"]
    pad = (-len(subs)) % n
    if case["k"] == "run":
        # alternate over all subspaces in the later rounds
        drive(case, ctx, [k % len(subs) for k in range(40)], case["rounds"])
    else:
        # every choice of subspaces in the first free round: all of them can be reached, and the remaining rounds go on
        reach = set()
        for script in itertools.product(range(len(subs)), repeat=n):
            hits, env = drive(case, ctx, [0] * pad + list(script), 1)
            reach |= set(hits[len(subs) + pad :])
        if env.used:
            ctx.eq(reach, set(range(len(subs))), "subspaces reachable after the initial pass")
