"""P07: saving and loading an optimizer is invisible to the optimization."""
import copy
import itertools
import os
import subprocess
import sys

import numpy as np

from mc import bo, gp, spaces
from mc.core import Violation

LEVEL = "model_checking"
ASSUMPTIONS = ["the random generator is re-seeded before every operation, so both executions see the same random numbers"]
CHUNK = 2
MIX = [["d", ["x", "", "z"]], ["r", -2.0, 2.0, {"precision": 2}], ["i", 0, 30, 2], ["b"], ["s", ["u", "v"]]]
REAL = [["r", -2.0, 2.0], ["r", 0.01, 10.0, {"scale": "log"}]]
OPS = "ANFSTX"


def ineq(x):
    return x["r_1"] - 1.5


def eq_dict(x):
    return 0.0 if x["b_3"] is True else 0.5


def ineq_list(x):
    return [x[1] - 1.5, 1.0 - x[2]]


def ineq_real(x):
    return x[0] + x[1] - 8.0


def eq_real(x):
    return 0.0 * x[0]


def obj(x):
    return bo.fval(x)


CFG = {
    "bo-list": dict(cls="BO", specs=MIX, ev="list", kw=dict(obj_fun=obj, max_FEs=9, ftarget=-5.0)),
    "bo-dict-max": dict(cls="BO", specs=MIX, ev="dict", kw=dict(minimize=False, ftarget=9.9)),
    "bo-dict-con": dict(cls="BO", specs=MIX, ev="dict", kw=dict(ineq_fun=ineq)),
    "par-dict-con": dict(cls="ParallelBO", specs=MIX, ev="dict", kw=dict(ineq_fun=ineq, eq_fun=eq_dict), short=True),
    "bo-list-con": dict(cls="BO", specs=MIX, ev="list", kw=dict(ineq_fun=ineq_list), short=True),
    "bo-real-con": dict(cls="BO", specs=REAL, ev="list", kw=dict(ineq_fun=ineq_real, eq_fun=eq_real)),
    "bo-real-smooth": dict(cls="BO", specs=REAL, ev="list", model="smooth", kw={}),
    "bo-real-gp": dict(cls="BO", specs=REAL, ev="list", model="gp", kw={}, short=True),
    "bo-rf": dict(cls="BO", specs=MIX, ev="dict", model="rf", kw={}, short=True),
    "par": dict(cls="ParallelBO", specs=MIX, ev="dict", kw=dict(acquisition_par={"t": 3.0})),
    "par-ucb": dict(cls="ParallelBO", specs=MIX, ev="list", kw=dict(acquisition_fun="UCB", acquisition_par={"alpha": 0.3})),
    "noisy": dict(cls="NoisyBO", specs=MIX, ev="list", kw={}),
    "anneal": dict(cls="AnnealingBO", specs=MIX, ev="list", kw=dict(max_FEs=20)),
    "self": dict(cls="SelfAdaptiveBO", specs=MIX, ev="list", kw={}),
    "multi": dict(cls="MultiAcquisitionBO", specs=MIX, ev="list", kw={}),
    "mobo": dict(cls="MOBO", specs=MIX, ev="dict", kw=dict(n_obj=2)),
    "cond": dict(cls="ConditionalBO", specs=None, ev="dict", kw={}, short=True),
    "log": dict(cls="BO", specs=MIX, ev="list", kw=dict(log_file="opt.log", data_file="opt.csv", instance_id="i7")),
}


FIRST = {
    "bo-dict-con": [{"d_0": "x", "r_1": v, "i_2": 2, "b_3": True, "s_4": ("u",)} for v in (0.5, -1.25, 1.5)],
    "par-dict-con": [{"d_0": "x", "r_1": v, "i_2": 2, "b_3": True, "s_4": ("u",)} for v in (0.5, -1.25, 1.5)],
    "bo-list-con": [["x", v, 2, True, ("u",)] for v in (0.5, -1.25, 1.5)],
    "bo-real-con": [[0.5, 1.0], [1.0, 7.0], [-2.0, 0.25]],
}


def BOUNDS(tier):
    return f"{len(CFG)} optimizer configurations x all sequences of {3 if tier == 'quick' else 4} operations (ask+tell, tell with failures, all-failed tell, save+load and go on with the loaded one, save and go on with the original, save+load discarding the loaded one after using it), each compared with the save-free execution; plus load in a fresh process"


def cases(tier):
    d = 3 if tier == "quick" else 4
    out = []
    for n, c in CFG.items():
        dd = d - 1 if c.get("short") and tier == "quick" else d
        for first in OPS:
            out.append({"cfg": n, "pre": first, "d": dd})
        out.append({"cfg": n, "fresh": True})
    return out


def create(name):
    c = CFG[name]
    if c["cls"] == "ConditionalBO":
        from bayes_optim.search_space import Bool, Discrete, Integer, Real, SearchSpace

        cs = SearchSpace([Discrete(["A", "B"], name="sel"), Real([-1, 1], name="p", conditions="sel == 'A'"), Integer([0, 40], name="q", conditions="sel == 'B'"), Bool(name="w")])
        return bo.cls_of("ConditionalBO")(search_space=cs, n_point=2, acquisition_optimization=dict(bo.AQ), **c["kw"])
    model = c.get("model", "peak")
    space = spaces.build(c["specs"])
    if model == "gp":
        model = gp.gp(space)
    corner = [(s[2] if s[0] == "r" else spaces.values(s)[-1]) for s in c["specs"]]
    return bo.make(c["cls"], c["specs"], model=model, z=corner, eval_type=c["ev"], n_point=2, DoE_size=3, space=space, aq={"max_FEs": 8, "n_restart": 1, "wait_iter": 1}, **c["kw"])


def vals(name, n, t, kind):
    f = [float((7 * (3 * t + j) + 3) % 11) - 3.0 + 0.1 * t for j in range(n)]
    if kind == "N":
        f[0] = float("nan")
    if kind == "F":
        f = [float("inf")] * n
    return [(v, 2.0 - v) for v in f] if name == "mobo" else f


def canon(x):
    if isinstance(x, dict):
        return tuple((str(k), canon(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    return bo.spaces_key(x)


def snap(opt, ctx=None):
    """everything a user can see"""
    d = opt.data if hasattr(opt, "data") else None
    xo = opt.xopt
    return {
        "data": None if d is None else canon(d.tolist()),
        "fitness": None if d is None else d.fitness.tolist(),
        "n_eval": None if d is None else d.n_eval.tolist(),
        "index": None if d is None else d.index.tolist(),
        "names": None if d is None else [str(v) for v in d.var_name],
        "eval_count": opt.eval_count,
        "iter_count": opt.iter_count,
        "hist_f": [np.asarray(h).tolist() for h in opt.hist_f],
        "xopt": None if xo is None else (canon(xo.tolist()), xo.fitness.tolist()),
        "stop": bool(opt.check_stop()) if opt.n_obj == 1 else None,
        "stop_dict": {k: repr(np.ravel(v).tolist()) for k, v in opt.stop_dict.items()},
        "space": (list(map(str, opt.search_space.var_name)), repr(opt.search_space.bounds)),
        "par": {k: float(v) for k, v in getattr(opt, "_acquisition_par", {}).items() if np.isscalar(v)},
        "cfg": (opt.max_FEs, opt.ftarget, repr(opt.minimize), opt.n_point, opt.DoE_size, opt.n_obj, opt.random_seed, opt.data_file, opt.instance_id if not opt.instance_id.isdigit() else None),
    }


def do(opt, name, op, t, ctx):
    """perform a regular operation; returns what the user sees"""
    np.random.seed(1000 + t)
    if name in FIRST and not hasattr(opt, "data"):  # the constrained initial design is slow: give the points by hand
        X = copy.deepcopy(FIRST[name])
    else:
        X = opt.ask()
    asked = canon(X)
    f = vals(name, len(X), t, op)
    np.random.seed(2000 + t)
    opt.tell(X, f)
    return asked


def run_case(c, ctx):
    if c.get("fresh"):
        return fresh(c, ctx)
    for tail in itertools.product(OPS, repeat=c["d"] - 1):
        seq = c["pre"] + "".join(tail)
        if not set(seq) & set("STX"):
            continue
        ctx.new_trace()
        one(c["cfg"], seq, ctx)


_REF = {}


def reference(name, seq, ctx):
    """observations of the execution without saving, keyed by the regular operations"""
    key = (name, seq)
    if key not in _REF:
        opt = create(name)
        obs = [snap(opt)]
        asks = []
        for t, op in enumerate(seq + "A"):
            asks.append(do(opt, name, op, t, ctx))
            obs.append(snap(opt))
        _REF[key] = (asks, obs)
    return _REF[key]


def diff(a, b):
    return {k: (a[k], b[k]) for k in a if repr(a[k]) != repr(b[k])}


def one(name, seq, ctx):
    reg = "".join(o for o in seq if o in "ANF")
    asks, obs = reference(name, reg, ctx)
    cls = bo.cls_of(CFG[name]["cls"])
    opt = create(name)
    t = 0
    for k, op in enumerate(seq + "A"):
        if op in "ANF":
            got = do(opt, name, op, t, ctx)
            ctx.step(f"{op}: ask -> {got}")
            ctx.check(got == asks[t], lambda: f"after {seq[:k]!r} the optimizer proposes {got}; without saving/loading it proposes {asks[t]}")
            t += 1
        else:
            fn = os.path.join(f"d{k}", "sub", "o.pkl") if k % 2 else "o.pkl"
            opt.save(fn)
            ctx.step(f"save({fn})")
            if op == "S":
                opt = cls.load(fn)
            elif op == "X":  # use the loaded copy, then go on with the original
                other = cls.load(fn)
                d = diff(obs[t], snap(other))
                ctx.check(not d, lambda: f"the loaded optimizer differs from the saved one: {d}")
                do(other, name, "A", 17, ctx)
                again = snap(cls.load(fn))
                d = diff(obs[t], again)
                ctx.check(not d, lambda: f"using a loaded optimizer changed what the file contains: {d}")
        d = diff(obs[t], snap(opt))
        ctx.check(not d, lambda: f"after {seq[:k + 1]!r} the optimizer differs from the one that was never saved: {d}")
        ctx.state((name, reg, seq[: k + 1]))
    ctx.trace()


def fresh(c, ctx):
    """load in a new process and continue"""
    name = c["cfg"]
    asks, obs = reference(name, "AN", ctx)
    opt = create(name)
    do(opt, name, "A", 0, ctx)
    opt.save("f.pkl")
    ctx.step("save")
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = (
        f"import sys; sys.path.insert(0, {root!r}); sys.path.insert(0, {os.environ.get('VERIF_REPO', '/repo')!r})\n"
        "import warnings; warnings.filterwarnings('ignore')\n"
        "from checks import P07\nfrom mc import bo\n"
        f"o = bo.cls_of({CFG[name]['cls']!r}).load('f.pkl')\n"
        f"print('@@', repr((P07.snap(o), P07.do(o, {name!r}, 'N', 1, None), P07.snap(o))))\n"
    )
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=200)
    ctx.check(p.returncode == 0, lambda: f"loading in a new process failed: {p.stderr[-1500:]}")
    out = [l for l in p.stdout.splitlines() if l.startswith("@@ ")][-1][3:]
    want = repr((obs[1], asks[1], obs[2]))
    ctx.check(out == want, lambda: f"the optimizer loaded in a new process differs: {out} instead of {want}")
    ctx.state((name, "fresh"))
    ctx.trace()
