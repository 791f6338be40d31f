"""P01: every proposed candidate is an admissible point of the search space."""
import itertools

import numpy as np

from mc import bo, rng, spaces
from mc.core import Violation

LEVEL = "model_checking"
ASSUMPTIONS = ["random draws are taken from numpy's global generator", "surrogates are stand-ins with fixed predictions or 4-tree forests",
               "the acquisition search is bounded to 14 evaluations per restart"]
CHUNK = 1

R = ["r", -5.0, 5.0]
SP = {
    "r": [["r", -5.0, 5.0]],
    "r2": [["r", -5.0, 5.0], ["r", 0.0, 1.0]],
    "rp": [["r", -1.0, 2.0, {"precision": 2}], ["r", 0.05, 9.97, {"precision": 1}]],
    "rp_off": [["r", 0.123, 0.987, {"precision": 1}], ["r", -3.14159, 2.71828, {"precision": 3}]],
    "rlog": [["r", 0.01, 100.0, {"scale": "log"}], ["r", 0.001, 10.0, {"scale": "log10", "precision": 4}]],
    "rbil": [["r", -10.0, 100.0, {"scale": "bilog"}], ["r", 0.1, 0.9, {"scale": "logit"}]],
    "tiny": [["r", 0.0, 1e-9], ["r", 1e-10, 1e-8, {"scale": "log10"}]],
    "far": [["r", 1e6, 1e6 + 1.0], ["r", -7e4, -7e4 + 0.25]],
    "i": [["i", -3, 8]],
    "istep": [["i", 1, 10, 4], ["i", -7, 8, 3]],
    "istep2": [["i", 0, 5, 3], ["i", -7, 8, 4]],
    "d": [["d", ["a", "b", "c"]]],
    "dm": [["d", ["a", 1, 2.5, True]], ["o", [1, 2, 4, 8]]],
    "b": [["b"], ["b"], ["b"]],
    "s": [["s", ["a", "b", "c"]]],
    "bs": [["b"], ["s", ["u", "v"]], ["i", 0, 3]],
    "mix": [["d", ["x", "y", "z"]], ["r", -2.0, 2.0, {"precision": 1}], ["i", 0, 9, 2], ["b"], ["o", [10, 20, 30]]],
    "mix2": [["i", -5, 5], ["r", 1e-3, 1.0, {"scale": "log10"}], ["d", [1, 2, 3]], ["r", 0.0, 7.0]],
    "mixs": [["s", ["p", "q"]], ["r", 0.0, 1.0], ["i", 2, 5]],
}
REAL = {"r", "r2", "rp", "rp_off", "rlog", "rbil", "tiny", "far"}
PERM = [["r", -1.0, 1.0, {"precision": 1}], ["i", 0, 6, 3], ["d", ["u", "v"]], ["b"]]


def BOUNDS(tier):
    return (f"{len(SP)} spaces x 5 optimizer classes x list/dict x model (peak at each corner / forest / gradient) with DoE, 2-3 model-based asks; all plans with "
            + ("<=1 deviating draw site, all single-draw deviations on 5 spaces, plus all 24 orders of a mixed space" if tier == "quick" else "<=2 deviating draw sites and all single-draw deviations"))


def cases(tier):
    out = []
    for s in SP:
        for cls, n in (("BO", 1), ("ParallelBO", 3), ("ParallelUCB", 2), ("NoisyBO", 2), ("AnnealingBO", 2), ("MultiAcquisitionBO", 2), ("SelfAdaptiveBO", 2), ("MOBO", 1)):
            if cls == "MOBO" and s in REAL:
                continue
            for ev in ("list", "dict") if cls in ("BO", "ParallelBO") else ("dict",):
                out.append({"sp": s, "cls": cls, "n": n, "ev": ev, "model": "peak", "by_site": True, "bound": 1 if tier == "quick" else 2})
        if s in REAL:
            out.append({"sp": s, "cls": "BO", "n": 1, "ev": "list", "model": "smooth", "by_site": True, "bound": 1 if tier == "quick" else 2})
            out.append({"sp": s, "cls": "BO", "n": 1, "ev": "list", "model": "peak", "opt": "MIES", "by_site": True, "bound": 1})
        out.append({"sp": s, "cls": "BO", "n": 1, "ev": "list", "model": "rf", "by_site": True, "bound": 1, "max": True})
    for s in ("istep", "istep2", "mix"):  # the surrogate pulls towards a bound that is not on the step
        for cls, n in (("BO", 1), ("ParallelBO", 3), ("MOBO", 1)):
            out.append({"sp": s, "cls": cls, "n": n, "ev": "list", "model": "peak", "by_site": True, "bound": 1, "ub": True})
    for s in SP:  # constraints that every point satisfies, warm starts and fixed variables do not change what is admissible
        if s not in ("s", "b"):
            out.append({"sp": s, "cls": "BO", "n": 1, "ev": "dict" if s in REAL else "list", "model": "peak", "by_site": True, "bound": 0 if tier == "quick" else 1, "con": True, "ub": True, "asks": 2})
        out.append({"sp": s, "cls": "ParallelBO", "n": 2, "ev": "dict", "model": "peak", "by_site": True, "bound": 0 if tier == "quick" else 1, "warm": True})
        if len(SP[s]) > 1:
            for j in range(len(SP[s])):
                out.append({"sp": s, "cls": "BO", "n": 1, "ev": "list", "model": "peak", "by_site": True, "bound": 0 if tier == "quick" else 1, "fix": j})
    for p in itertools.permutations(range(4)):
        out.append({"perm": list(p), "cls": "ParallelBO", "n": 2, "ev": "list" if p[0] % 2 else "dict", "model": "peak", "by_site": True, "bound": 0 if tier == "quick" else 1})
    for s in ("r2", "istep", "mix", "mixs", "rp") if tier == "quick" else SP:
        out.append({"sp": s, "cls": "BO", "n": 1, "ev": "list", "model": "peak", "by_site": False, "bound": 1, "asks": 1})
    return out


def run_case(c, ctx):
    specs = SP[c["sp"]] if "sp" in c else [PERM[i] for i in c["perm"]]
    from bayes_optim.utils.exception import AskEmptyError

    nm = spaces.names(specs)
    pts = spaces.points(specs)
    pts = None if pts is None else list(dict.fromkeys(map(tuple, pts)))  # 1 and True are one level
    corner = [(s[2] if s[0] == "r" or s[0] == "i" and c.get("ub") else spaces.values(s)[-1]) for s in specs]
    n, ev = c["n"], c["ev"]
    kw = {}
    cls = c["cls"]
    if cls == "ParallelUCB":
        cls, kw["acquisition_fun"] = "ParallelBO", "UCB"
    if cls == "AnnealingBO":
        kw["max_FEs"] = 20
    if cls == "MOBO":
        kw["n_obj"] = 2
    aq = dict(bo.AQ)
    if "opt" in c:
        aq["optimizer"] = c["opt"]
    minimize = not c.get("max", False)
    if c.get("con"):
        kw["ineq_fun"] = lambda x: -1.0
    low = [(float(s[1]) if s[0] == "r" else spaces.values(s)[0]) for s in specs]
    fixed = {} if c.get("fix") is None else {nm[c["fix"]]: low[c["fix"]]}
    if fixed:
        pts = None if pts is None else [p for p in pts if p[c["fix"]] == low[c["fix"]]]

    def run(env):
        opt = bo.make(cls, specs, model=c["model"], z=corner, minimize=minimize, eval_type=ev, n_point=n, DoE_size=3, aq=aq, **kw)
        seen = 0
        if c.get("warm"):
            mid = [((float(s[1]) + float(s[2])) / 2 if s[0] == "r" else spaces.values(s)[-1]) for s in specs]
            mid = [float(np.clip(round(v, s[3]["precision"]), s[1], s[2])) if s[0] == "r" and len(s) > 3 and "precision" in s[3] else v for s, v in zip(specs, mid)]
            opt.warm_data = ([dict(zip(nm, p)) for p in (low, mid)], [1.0, 2.0])
            seen = 2
        for phase in range(1 + c.get("asks", 2)):
            want = 3 if phase == 0 and not c.get("warm") else (n if phase < 2 else 1)
            args = {"fixed": fixed} if fixed else {}
            try:
                X = opt.ask(**args) if phase < 2 else opt.ask(1, **args)
            except AskEmptyError:
                # a source that keeps repeating one extreme value cannot provide a fresh continuous point
                if pts is None and env.by_site and env.plan:
                    break
                raise
            ctx.step(f"ask -> {X}")
            rows = bo.validate(X, specs, nm, ev, ctx, fixed)
            if pts is not None:
                want = want if cls == "NoisyBO" else min(want, len(pts) - seen)
            if pts is not None or (not env.by_site):
                ctx.check(len(rows) == want, lambda: f"{want} candidates were requested but {len(rows)} proposed: {X}")
            ctx.check(1 <= len(rows) <= want, lambda: f"{len(rows)} candidates for a request of {want}")
            for r in rows:
                ctx.state((c.get("sp"), bo.key(r)))
            y = [bo.fval(r) + 0.37 * (phase + j) for j, r in enumerate(rows)]
            opt.tell(X, [(v, -v) for v in y] if cls == "MOBO" else y)
            ctx.step("tell")
            seen = len({bo.key(r) for r in opt.data.tolist()})
            if pts is not None and seen >= len(pts):
                break
        ctx.trace()

    n_exec, complete = rng.explore(run, bound=c["bound"], by_site=c["by_site"], ctx=ctx)
    ctx.sample(f"{n_exec} executions")
