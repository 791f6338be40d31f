"""P05: incumbent, recommendation and stopping agree with the whole history, in the chosen direction."""
import itertools

import numpy as np

from mc import bo, rng, spaces, tells
from mc.tells import POINTS, dec

LEVEL = "model_checking"
ASSUMPTIONS = ["the surrogate is a stand-in", "the target is never hit exactly (strict or non-strict comparison is left open)"]
CHUNK = 16
V = [-1.0, 1.0, 2.0, "nan", "inf", "-inf"]
OPS = [[v] for v in V] + [[2.0, -1.0], [-1.0, 2.0], ["nan", 1.0], [1.0, "inf"], ["-inf", 2.0], [1.0, 1.0], ["nan", "nan"], [0.5, -3.0, 2.5], [1.0 + 1e-9, 1.0], [1.0 - 1e-9, 1.0]]
TARGETS = [None, 0.0, 1.5, -2.0]
MAXFES = [None, 1, 2, 3, 4]


WARM = [None, [0.5], [-3.0, 2.5], ["nan"], [3.0, "inf", -0.5]]


def BOUNDS(tier):
    return f"all sequences of {2 if tier == 'quick' else 3} tell batches after data given at the start {WARM[1:]} and after saving and loading at every position, also for the dimension-reducing optimizer; a stop requested by the user at every position; all sequences of {3 if tier == 'quick' else 4} tell batches from {len(OPS)} over values {V}, minimize and maximize, targets {TARGETS}, budgets {MAXFES}, 3 classes; queries after every operation; histories of {LONG} observations with the best one at every position"


LONG = 70


def cases(tier):
    d = 3 if tier == "quick" else 4
    out = []
    for mn in (True, False):
        for t, mx, cls, ev in [(t, mx, "BO", "list") for t in TARGETS for mx in MAXFES] + [(0.0, 3, "ParallelBO", "dict"), (None, 2, "NoisyBO", "dict")]:
            for first in range(len(OPS)):
                out.append({"min": mn, "t": t, "mx": mx, "cls": cls, "ev": ev, "w": 0, "pos": None, "first": first, "d": d if (t, mx) in ((None, None), (0.0, None), (1.5, 3), (None, 3)) or cls != "BO" else d - 1})
    for mn, (cls, ev), b, p in itertools.product((True, False), (("BO", "list"), ("ParallelBO", "dict")), (1, 9), range(LONG)):
        out.append({"min": mn, "t": None if p % 2 else -9.0 if mn else 9.0, "mx": LONG if p % 3 else None, "cls": cls, "ev": ev, "w": 0, "pos": (1 + p // 2) // b if p % 4 == 0 else None, "what": "load", "batch": b, "best": p})
    d = 2 if tier == "quick" else 3
    for mn, t, mx in itertools.product((True, False), (None, 0.0, 1.5, -2.0), (None, 2, 4)):
        for w in range(len(WARM)):
            cls, ev = [("BO", "dict"), ("ParallelBO", "list"), ("PCABO", "list"), ("BO", "list"), ("PCABO", "list")][w]
            for first in range(0, len(OPS)):
                if w or t is None or cls == "PCABO":
                    out.append({"min": mn, "t": t, "mx": mx, "cls": cls, "ev": ev, "w": w, "pos": None, "first": first, "d": d})
                    if (first + w) % 3 == 0:
                        out.append({"min": mn, "t": t, "mx": mx, "cls": "PCABO" if cls != "PCABO" else "BO", "ev": "list", "w": w, "pos": None, "first": first, "d": d})
        for first, pos, what in itertools.product(range(len(OPS)), range(d + 1), ("load", "stop")):
            if tier != "quick" or (first + pos) % 3 == 0:
                out.append({"min": mn, "t": t, "mx": mx, "cls": "BO", "ev": "list", "w": (first + pos) % 3, "pos": pos, "what": what, "first": first, "d": d})
    return out


def run_case(c, ctx):
    if "batch" in c:
        v = [((i * 37) % 71 - 35) / 8 for i in range(LONG)]
        v[c["best"]] = -10.0 if c["min"] else 10.0
        v[(c["best"] + 11) % LONG] = "-inf" if c["min"] else "inf"  # a failed evaluation
        ctx.new_trace()
        return one(c, [v[i : i + c["batch"]] for i in range(0, LONG, c["batch"])], ctx, tells.MANY)
    for tail in itertools.product(range(len(OPS)), repeat=c["d"] - 1):
        ctx.new_trace()
        one(c, [OPS[c["first"]]] + [OPS[k] for k in tail], ctx)


def query(opt, m, c, ctx, unavailable):
    for _ in range(2):  # asking twice gives the same answer
        if not m.data:
            ctx.check(opt.xopt is None or len(opt.xopt) == 0, "an incumbent is reported although nothing was evaluated successfully")
            try:
                r = opt.recommend()
                ctx.check(False, f"recommend() returned {r!r} although nothing was evaluated successfully")
            except unavailable:
                pass
        else:
            best = m.best()
            cand = [x for x, f in m.data if f == best]
            for what, s in (("xopt", opt.xopt), ("recommend()", opt.recommend())):
                ctx.check(s.fitness.ravel().tolist() == [best], lambda: f"{what} has objective value {s.fitness}, the best observed is {best} of {[f for _, f in m.data]}")
                x = s.tolist()
                ctx.check(any(len(x) == len(y) and all(map(spaces.same, x, y)) for y in cand), lambda: f"{what} is {x}, which was not observed with the best value {best}: {m.data}")
        full = c["mx"] is not None and m.evals >= c["mx"]
        hit = c["t"] is not None and bool(m.data) and ((m.best() < c["t"]) if c["min"] else (m.best() > c["t"]))
        got = opt.check_stop()
        ctx.check(bool(got) == (full or hit), lambda: f"check_stop() is {got} after {m.evals} evaluations (budget {c['mx']}), best {m.best() if m.data else None}, target {c['t']}, minimize={c['min']}")
        ctx.check(("max_FEs" in opt.stop_dict) == full and ("ftarget" in opt.stop_dict) == hit, lambda: f"the reasons for stopping are {opt.stop_dict}: budget exhausted {full}, target reached {hit}")
        ctx.step(n=3)


def create(c):
    from checks import P30

    if c["cls"] != "PCABO":
        return bo.make(c["cls"], tells.SPECS, names=tells.NM, eval_type=c["ev"], minimize=c["min"], n_point=2, DoE_size=2, z=POINTS[0], ftarget=c["t"], max_FEs=c["mx"]), POINTS
    return P30.mk({"b": 0, "nc": 1, "min": c["min"]}, ftarget=c["t"], max_FEs=c["mx"]), P30.PTS[2]


def one(c, seq, ctx, many=None):
    from bayes_optim.utils.exception import FlatFitnessError, RecommendationUnavailableError
    from checks import P30

    with P30.standin(), rng.controlled(rng.Env()):
        opt, points = create(c)
        points = many or points
        form = (lambda xs: tells.fmt(xs, c["ev"], "plain")) if c["cls"] != "PCABO" else (lambda xs: [list(x) for x in xs])
        m = tells.Model(c["min"])
        k = 0
        if WARM[c["w"]]:
            fs = [dec(v) for v in WARM[c["w"]]]
            xs = points[: len(fs)]
            k = len(fs)
            opt.tell(form(xs), fs, warm_start=True) if len(fs) % 2 else setattr(opt, "warm_data", (form(xs), fs))
            m.data = [(x, f) for x, f in zip(xs, fs) if tells.ok(f)]
            ctx.step(f"data given at the start: {xs}, {fs}")
        query(opt, m, c, ctx, RecommendationUnavailableError)
        for i, b in enumerate(seq + [None]):
            if c["pos"] == i:
                if c["what"] == "load":
                    opt.save("o.pkl")
                    opt = type(opt).load("o.pkl")
                    ctx.step("save, load")
                    query(opt, m, c, ctx, RecommendationUnavailableError)
                else:
                    opt.stop_dict["user"] = True
                    ctx.check(bool(opt.check_stop()), "a stop requested by the user is ignored")
                    ctx.step("stop requested")
                    opt.stop_dict.pop("user")
            if b is None:
                break
            fs = [dec(v) for v in b]
            xs = [points[(k + j) % len(points)] for j in range(len(fs))]
            k += len(fs)
            m.tell(xs, fs)
            try:
                opt.tell(form(xs), fs)
            except FlatFitnessError:
                if m.flat:
                    return
                raise
            ctx.step(f"tell({xs}, {fs})")
            query(opt, m, c, ctx, RecommendationUnavailableError)
            ctx.state((c["min"], c["t"], c["mx"], c["cls"], repr(m.data), m.evals))
    ctx.trace()
