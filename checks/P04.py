"""P04: telling observations records exactly the successful ones, in order, and counts all of them."""
import copy
import itertools
import os

import numpy as np

from mc import bo, rng, spaces, tells
from mc.tells import POINTS, dec

LEVEL = "model_checking"
ASSUMPTIONS = ["the surrogate is a stand-in that accepts any data", "fewer than six observations with identical values (the optimizer deliberately stops on flat data)"]
CHUNK = 16

V1 = [-1.0, 0.0, 0.1, "nan", "inf", "-inf"]
B2 = [[0.0, 2.0], [1e300, -1e307], ["nan", 0.0], [0.0, "nan"], ["inf", "nan"], ["-inf", 1.0], [1e12, 1e12]]
B3 = [[1 / 3, "nan", -3e-9], ["nan", "nan", "nan"]]
OPS = [["t", [v]] for v in V1] + [["t", b] for b in B2 + B3] + [["ask"]]
M1 = [[0.0, 1.0], [1.0, 0.0], ["nan", 1.0], [0.0, "inf"], [-1.0, 2.0]]
OPSM = [["t", [v]] for v in M1] + [["t", [a, b]] for a in M1[:4] for b in M1[1:3]] + [["ask"]]


def BOUNDS(tier):
    return f"all sequences of {3 if tier == 'quick' else 4} operations over {len(OPS)} tell batches of 1-3 values from {V1} (and ask), crossed with list/dict/permuted keys/Solution inputs, 3 optimizer classes, min and max; {len(OPSM)}-letter alphabet of depth 2/3 with two objectives; histories of {LONG} observations in batches of 1, 7 and 40 with every period of failures of 2, 3, 5, 11"


LONG = 160


def cases(tier):
    d = 3 if tier == "quick" else 4
    out = []
    for cls, ev, how, mn in (("BO", "list", "plain", True), ("BO", "dict", "perm", False), ("ParallelBO", "dict", "plain", True), ("NoisyBO", "list", "perm", False), ("BO", "list", "sol", False)):
        for first in range(len(OPS)):
            for second in range(len(OPS)):
                out.append({"cls": cls, "ev": ev, "how": how, "min": mn, "pre": [first, second], "d": d if how != "sol" else 3})
    for (cls, ev, how, mn), b, p in itertools.product((("BO", "list", "plain", True), ("ParallelBO", "dict", "perm", False), ("MOBO", "list", "plain", True)), (1, 7, 40), (2, 3, 5, 11)):
        out.append({"cls": cls, "ev": ev, "how": how, "min": mn, "batch": b, "fail": p})
    for ev, how in (("list", "plain"), ("dict", "perm")):
        for first in range(len(OPSM)):
            for second in range(len(OPSM)):
                out.append({"cls": "MOBO", "ev": ev, "how": how, "min": True, "pre": [first, second], "d": d - 1})
    return out


def run_case(c, ctx):
    ops = OPSM if c["cls"] == "MOBO" else OPS
    if "batch" in c:
        v = [["nan", "inf", "-inf"][i % 3] if i % c["fail"] == 1 else ((i * 37) % 101 - 50) / 8 for i in range(LONG)]
        v = [[u, float(i % 7)] if i % 2 else [float(i % 5), u] for i, u in enumerate(v)] if c["cls"] == "MOBO" else v
        ctx.new_trace()
        return one(c, [["t", v[i : i + c["batch"]]] for i in range(0, LONG, c["batch"])], ctx, tells.MANY)
    rest = c["d"] - len(c["pre"])
    for tail in itertools.product(range(len(ops)), repeat=rest):
        seq = [ops[k] for k in c["pre"] + list(tail)]
        ctx.new_trace()
        one(c, seq, ctx)


def one(c, seq, ctx, POINTS=POINTS):
    from bayes_optim.utils.exception import FlatFitnessError

    cls, ev, how = c["cls"], c["ev"], c["how"]
    mo = cls == "MOBO"
    fname = "log.csv"
    if os.path.exists(fname):
        os.remove(fname)
    with rng.controlled(rng.Env()):
        opt = bo.make(cls, tells.SPECS, names=tells.NM, eval_type=ev, minimize=c["min"], n_point=2, DoE_size=2, z=POINTS[0], data_file=fname, aq={"max_FEs": 4, "n_restart": 1, "wait_iter": 1}, **({"n_obj": 2} if mo else {}))
        m = tells.Model(c["min"], 2 if mo else 1)
        k = 0
        for op in seq:
            if op[0] == "ask":
                opt.ask(1)
                ctx.step("ask(1)")
            else:
                fs = [dec(v) for v in op[1]]
                xs = [POINTS[(k + j) % len(POINTS)] for j in range(len(fs))]
                k += len(fs)
                X, F = tells.fmt(xs, ev, how), tells.fmt_f(fs, how)
                X0, F0 = copy.deepcopy(X), copy.deepcopy(F)
                m.tell(xs, fs)
                try:
                    opt.tell(X, F)
                except FlatFitnessError:
                    if m.flat:
                        return
                    raise
                ctx.step(f"tell({xs}, {fs})")
                ctx.check(repr(F) == repr(F0), "the caller's objective values were changed by tell")
                ctx.check(type(X) == type(X0) and repr(list(map(list, X)) if ev == "list" else X) == repr(list(map(list, X0)) if ev == "list" else X0), "the caller's points were changed by tell")
            tells.compare_data(opt, m, ctx)
            ctx.check(opt.eval_count == m.evals, lambda: f"eval_count is {opt.eval_count} after {m.evals} evaluations")
            ctx.check(opt.iter_count == m.iters, lambda: f"iter_count is {opt.iter_count} after {m.iters} tells")
            if not mo:
                h = [float(np.ravel(v)[0]) for v in opt.hist_f]
                ctx.check(h == m.hist, lambda: f"the history of best values is {h}, expected {m.hist}")
            ctx.state((cls, ev, how, c["min"], repr(m.data), m.evals, m.iters))
    lines = open(fname).read().splitlines() if os.path.exists(fname) else []
    ctx.check(len(lines) == len(m.data), lambda: f"the data file has {len(lines)} lines for {len(m.data)} recorded observations: {lines}")
    for ln, (x, f) in zip(lines, m.data):
        parts = ln.split(",")
        want = [float(v) for v in (f if mo else (f,))]
        ctx.check(parts[1 : 1 + len(x)] == [str(v) for v in x] and [float(v) for v in parts[-len(want):]] == want, lambda: f"line {ln!r} of the data file does not describe {x!r} -> {f!r}")
    ctx.trace()
