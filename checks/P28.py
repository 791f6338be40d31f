"""P28: the parameters of the acquisition function are the caller's, drawn around them per candidate, and follow the declared schedule."""
import itertools
import math
import os
import sys

import numpy as np

from mc import bo, rng, spaces, spy

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = "model_checking"
ASSUMPTIONS = ["the surrogate is a stand-in", "the logarithmic schedule is not covered"]
CHUNK = 4
SP = [["r", -2.0, 2.0], ["i", 0, 50], ["d", ["x", "y"]]]
NM = spaces.names(SP)
PAR = {"MGFI": ("t", [None, 0.25, 1.0, 3.0]), "UCB": ("alpha", [None, 0.1, 0.5, 0.9]), "EpsilonPI": ("epsilon", [None, 0.05, 0.3]), "EI": (None, [None]), "PI": (None, [None])}
DEFAULT = {"t": 1, "alpha": 0.5, "epsilon": 1e-10}


def BOUNDS(tier):
    return ("every acquisition function and parameter of the grid, single and batch requests, minimization and maximization, all patterns of up to "
            f"{3 if tier == 'quick' else 5} requests (single/batch) with observations in between; given plugin values; all normal draws from {{-2, 0, 1}} for the parameters of a batch; exponential and linear schedules for all combinations of 3 start and 3 final values, batch sizes 2-4 and {3 if tier == 'quick' else 6} lengths up to and beyond the budget")


def cases(tier):
    out = []
    for fun, (p, vs) in PAR.items():
        for v, mn in itertools.product(vs, (True, False)):
            for plug in (None, -0.75, 0.0):
                if plug is not None and fun == "UCB":
                    continue
                out.append({"k": "single", "fun": fun, "v": v, "min": mn, "plug": plug})
    d = 3 if tier == "quick" else 5
    for cls in ("ParallelBO", "NoisyBO"):
        for fun in ("MGFI", "UCB"):
            for v in PAR[fun][1]:
                for n in (2, 3) if tier == "quick" else (2, 3, 4):
                    out.append({"k": "batch", "cls": cls, "fun": fun, "v": v, "n": n, "min": n == 2, "d": d})
    for n in (2, 3, 4):
        out.append({"k": "multi", "n": n, "d": d})
        out.append({"k": "self", "n": n, "v": 0.5 if n == 2 else 2})
    for sched, t0, tf, n, B in itertools.product(("exp", "linear"), (2, 0.5, 10), (0.1, 0.25, 0.01), (2, 3, 4), (11, 15, 24) if tier == "quick" else (11, 15, 24, 40, 60, 100)):
        out.append({"k": "anneal", "s": sched, "t0": t0, "tf": tf, "n": n, "B": B})
    return out


class Draws(rng.Env):
    """scripted normal variables for the scalar draws (the parameters); everything else from the fixed stream"""

    def __init__(self, script):
        super().__init__()
        self.script, self.pos, self.scalar = list(script), 0, []

    def randn(self, *d):
        f = sys._getframe(1)
        while f is not None and f.f_code.co_filename.startswith(ROOT):
            f = f.f_back
        inner = any(k in f.f_code.co_filename for k in ("acquisition/optim", "search_space"))
        if d == () and not inner and self.pos < len(self.script):
            self.pos += 1
            self.scalar.append(self.script[self.pos - 1])
            return float(self.script[self.pos - 1])
        return super().randn(*d)


def mk(cls, fun, par, n=2, **kw):
    args = dict(names=NM, n_point=n, DoE_size=3, z=[1.0, 5, "y"], max_FEs=40, aq={"max_FEs": 5, "n_restart": 1, "wait_iter": 1})
    args.update(kw)
    if fun is not None:
        args["acquisition_fun"] = fun
    if par is not None:
        args["acquisition_par"] = par
    return bo.make(cls, SP, **args)


def told(opt, k=0, n=3):
    X = [[-1.5 + 0.3 * (k + j), (7 * (k + j)) % 50, "xy"[(k + j) % 2]] for j in range(n)]
    opt.tell(X, [((3 * (k + j)) % 7) - 2.0 for j in range(n)])
    return k + n


def used(opt, n):
    with spy.acquisitions() as log:
        X = opt.ask(n)
    return spy.groups(log), X


def single(c, ctx):
    p, _ = PAR[c["fun"]]
    par = {}
    if c["v"] is not None:
        par[p] = c["v"]
    if c["plug"] is not None:
        par["plugin"] = c["plug"]
    for given in ([par] if par else [None, {}]):
        with rng.controlled(rng.Env()):
            opt = mk("BO", c["fun"], given, minimize=c["min"])
            k = told(opt)
            for it in range(3):
                G, X = used(opt, 1 if it else None)
                ctx.step(f"ask -> {X}")
                ctx.check(len(G) == 1, lambda: f"{len(G)} acquisition functions for one candidate")
                for r in G[0]:
                    ctx.check(r["cls"] == c["fun"], lambda: f"{r['cls']} is used, asked for {c['fun']}")
                    if p:
                        want = DEFAULT[p] if c["v"] is None else c["v"]
                        ctx.check(r[p] == want, lambda: f"{c['fun']} uses {p}={r[p]}, given {c['v']} (default {DEFAULT[p]})")
                    if c["plug"] is not None:
                        want = c["plug"] if c["min"] else -c["plug"]
                        ctx.check(r["plugin"] == want, lambda: f"{c['fun']} compares with {r['plugin']}, given plugin {c['plug']} ({'min' if c['min'] else 'max'}imization)")
                    ctx.check(r["minimize"] == c["min"], "wrong direction")
                k = told(opt, k, 1)
        ctx.state((c["fun"], c["v"], c["min"], c["plug"], given is None))
    ctx.trace()


def expect(fun, v, z, ctx, got, cls):
    if fun == "MGFI":
        base = v if v is not None else (2 if cls != "AnnealingBO" else None)
        ctx.check(got > 0 and np.isclose(got, base * math.exp(0.5 * z)), lambda: f"t={got} for the normal draw {z} around {base}")
    else:
        ctx.check(0 <= got <= 1, lambda: f"alpha={got} is not in [0, 1]")


def batch(c, ctx):
    p, _ = PAR[c["fun"]]
    n = c["n"]
    for pattern in itertools.product((1, n), repeat=c["d"]):
        for zs in itertools.product((-2.0, 0.0, 1.0), repeat=n) if pattern == (n,) * c["d"] or n == 2 else [(1.0,) * n]:
            ctx.new_trace()
            with rng.controlled(rng.Env()):
                opt = mk(c["cls"], c["fun"], {p: c["v"]} if c["v"] is not None else None, n=n, minimize=c["min"])
                k = told(opt)
            seen = {}
            for w in pattern:
                with rng.controlled(Draws(zs)) as env:
                    G, X = used(opt, w)
                    k = told(opt, k, 1)
                ctx.step(f"ask({w}) -> {X}")
                ctx.check(len(G) == w, lambda: f"{len(G)} acquisition functions for {w} candidates")
                vals = []
                for g in G:
                    ctx.check(len({r[p] for r in g}) == 1 and all(r["cls"] == c["fun"] for r in g), lambda: f"{p} changes while one criterion is optimized: {[r[p] for r in g]}")
                    vals.append(g[0][p])
                if w == 1:
                    want = c["v"] if c["v"] is not None else (2 if c["fun"] == "MGFI" else DEFAULT[p])
                    ctx.check(vals == [want], lambda: f"a single request uses {p}={vals}, given {want}, after {pattern}")
                else:
                    for z, v in zip(zs, vals):
                        expect(c["fun"], c["v"], z, ctx, v, c["cls"])
                    for (z1, v1), (z2, v2) in itertools.combinations(list(zip(zs, vals)), 2):
                        ctx.check((z1 == z2) == (v1 == v2), lambda: f"the draws {zs} lead to the parameters {vals}: not drawn independently per candidate")
                    # the same draws around the same parameter give the same values at any time: requests do not drift
                    ctx.check(seen.setdefault(zs, vals) == vals, lambda: f"the draws {zs} gave {seen[zs]} before and {vals} now: the base parameter drifts")
                ctx.state((c["cls"], c["fun"], c["v"], pattern, zs))
            ctx.trace()


def multi(c, ctx):
    for pattern in itertools.product((1, c["n"]), repeat=c["d"]):
        for z in (-2.0, 0.0, 1.0):
            ctx.new_trace()
            with rng.controlled(Draws([z] * 50)):
                opt = mk("MultiAcquisitionBO", None, None, n=c["n"])
                k = told(opt)
                first = None
                for w in pattern:
                    G, X = used(opt, w)
                    ctx.step(f"ask({w}) -> {X}")
                    ctx.check(len(G) == w, lambda: f"{len(G)} acquisition functions for {w} candidates")
                    if w > 1:
                        kinds = [g[0]["cls"] for g in G]
                        ctx.check(abs(kinds.count("MGFI") - kinds.count("UCB")) <= 1 and kinds.count("MGFI") + kinds.count("UCB") == w, lambda: f"a batch of {w} uses {kinds}")
                        vals = [g[0]["t"] if g[0]["cls"] == "MGFI" else g[0]["alpha"] for g in G]
                        for kd, v in zip(kinds, vals):
                            ctx.check(v > 0 if kd == "MGFI" else 0 <= v <= 1, lambda: f"parameter {v} of {kd}")
                        first = first or vals
                        ctx.check(vals == first, lambda: f"with the same draws the parameters were {first} and are now {vals}")
                    k = told(opt, k, 1)
                    ctx.state((pattern, z, w))
            ctx.trace()


def self_adaptive(c, ctx):
    n = c["n"]
    for zs in itertools.product((-1.0, 0.25, 1.5), repeat=n):
        ctx.new_trace()
        with rng.controlled(rng.Env()):
            opt = mk("SelfAdaptiveBO", "MGFI", {"t": c["v"]}, n=n)
            k = told(opt)
        t = c["v"]
        for it in range(3):
            if any(t * z > 3 for z in zs):  # large parameters are capped to avoid overflow
                break
            with rng.controlled(Draws(zs)):
                G, X = used(opt, n)
                k = told(opt, k, 1)
            ts = [g[0]["t"] for g in G]
            ctx.step(f"t={t}: ask -> {ts}")
            ctx.check(len(G) == n and np.allclose(ts, [math.exp(t * z) for z in zs]), lambda: f"strength {t}, draws {zs}: parameters {ts}")
            tops = [max(r["value"] for r in g) for g in G]
            order = sorted(tops, reverse=True)
            if n // 2 < n and np.isclose(order[n // 2 - 1], order[n // 2]):
                break
            want = np.mean([ts[i] for i in np.argsort(tops)[::-1][: n // 2]])
            with rng.controlled(rng.Env()):
                G, _ = used(opt, 1)
            got = G[0][0]["t"]
            ctx.check(np.isclose(got, want), lambda: f"the strength became {got}; the better half of the candidates ({list(zip(ts, tops))}) has mean {want}")
            t = got
            ctx.state((n, zs, it))
        ctx.trace()


def anneal(c, ctx):
    t0, tf, n, B, doe = c["t0"], c["tf"], c["n"], c["B"], 3
    iters = (B - doe) / n
    with rng.controlled(Draws([0.0] * 1000)):
        opt = mk("AnnealingBO", None, None, n=n, max_FEs=B, t0=t0, tf=tf, schedule=c["s"])
        k = told(opt, 0, doe)
        prev = None
        for it in range(math.ceil(iters) + 1):
            G, X = used(opt, n)
            ts = [g[0]["t"] for g in G]
            if c["s"] == "exp":
                want = t0 * (tf / t0) ** (it / iters)
            else:
                want = t0 - (t0 - tf) * it / iters
                if (want < tf) == (t0 > tf):
                    want = tf
            ctx.step(f"iteration {it}: t={ts}")
            ctx.check(np.allclose(ts, want), lambda: f"{c['s']} schedule from {t0} to {tf} over {iters} iterations: iteration {it} uses {ts}, expected {want}")
            ctx.state((c["s"], t0, tf, n, B, it))
            k = told(opt, k, n)
    ctx.trace()


def run_case(c, ctx):
    ctx.sample(c)
    {"single": single, "batch": batch, "multi": multi, "self": self_adaptive, "anneal": anneal}[c["k"]](c, ctx)
