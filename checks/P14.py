"""P14: a search space written to a dictionary or JSON file and read back is the same space."""
import copy
import itertools
import json
import os

import numpy as np

from mc import spaces
from mc.core import Violation

LEVEL = "model_checking"
ASSUMPTIONS = ["levels of categorical variables are strings, numbers, or booleans (JSON has no tuples)"]
CHUNK = 16

# every declaration of a variable in the bound: (constructor, arguments)
def decls():
    out = []
    for b in ((-5.0, 5.0), (0, 1), (0.01, 100.0), (1e-9 / 3, 123456.789012345)):
        for prec in (None, 0, 2):
            for sc in ("linear", "log", "log10", "bilog", "logit"):
                if sc in ("log", "log10") and b[0] <= 0:
                    continue
                if sc == "logit" and b != (0, 1):
                    continue
                if sc == "logit":
                    b = (0.1, 0.9)
                for dv in (None, b[0], b[1]):
                    out.append(["Real", list(b), {"precision": prec, "scale": sc, "default_value": dv}])
    for b, st in (((0, 8), 1), ((0, 8), 2), ((-4, 5), 3), ((1, 2), 1), ((100000, 10**12), 3)):
        for dv in (None, b[0], b[0] + st):
            out.append(["Integer", list(b), {"step": st, "default_value": dv}])
    for cls in ("Discrete", "Ordinal"):
        for lv in (["a", "b", "c"], [1, 2, 4], [0, "x", 2.5], [""], [True, "no"], ["z", "a"], [0.5, 0.25], [1 / 3, 1e-9, 123456789]):
            for dv in (None, lv[0], lv[-1]):
                out.append([cls, lv, {"default_value": dv}])
    for dv in (None, True, False):
        out.append(["Bool", None, {"default_value": dv}])
    for lv in (["u", "v"], [1, 2, 3], ["w"]):
        for dv in (None, (lv[0],), tuple(lv)):
            out.append(["Subset", lv, {"default_value": dv}])
    return out


D = decls()
CONDS = ["s0 == 'a'", "s0 == 'b'", "s1 == 2", "s1 == -1", "s2 == True", "u == 1"]
SELS = [["Discrete", ["a", "b"], {}], ["Integer", [-1, 2], {}], ["Bool", None, {}]]
ABBR = {"Real": ["r", "real"], "Integer": ["i", "int", "integer"], "Ordinal": ["o", "ordinal"], "Discrete": ["c", "cat", "discrete"], "Subset": ["s", "subset"], "Bool": ["b", "bool"]}


def bad():
    """declarations that make no sense"""
    out = [{"type": t} for t in ("r", "i", "int", "o", "ordinal", "c", "cat", "s", "real", "integer", "discrete", "subset")]
    out += [{"type": t, "range": []} for t in ("r", "i", "o", "c", "s")]
    for t in ("r", "i", "real", "integer"):
        out += [{"type": t, "range": r} for r in ([2, 1], [1, 1], [1], [0, 1, 2], ["a", "b"], [0, -1], [-1, -2])]
        out += [{"type": t, "range": [1, 3], "default": d} for d in (0, 0.0, False, 7, -1, 4, 3.5)]
        out += [{"type": t, "range": [-3, -1], "default": d} for d in (0, False, 1, -4)]
    for t in ("o", "c", "discrete"):
        out += [{"type": t, "range": ["a", "b"], "default": d} for d in ("", "c", 0, False, "ab")]
        out += [{"type": t, "range": [1, 2], "default": d} for d in (0, "1", False, 3)]
    out += [{"type": "s", "range": ["a", "b"], "default": d} for d in ([], ["c"], ["a", "c"])]
    out += [{"type": "b", "default": d} for d in ("", 2, "True")]
    out += [{"type": "i", "range": [0, 8], "step": 3, "default": d} for d in (1, 8, 2.5)]
    out += [{"type": "i", "range": [0, 8], "step": d} for d in (0, -1)]
    out += [{"type": "r", "range": [0.1, 8], "scale": "nope"}, {"range": [0, 1]}, {"type": None, "range": [0, 1]}, {"type": "", "range": [0, 1]}, {"type": "realx", "range": [0, 1]}, {"type": "nonsense", "range": [0, 1]}]
    return out


def BOUNDS(tier):
    return f"{len(D)} declarations of single variables (all types, scales, precisions, steps, default values), all ordered pairs of {48 if tier == 'quick' else len(D)}, one condition each out of {len(CONDS)} on {len(SELS)} selectors, declaration dictionaries with every type abbreviation, missing options and 1-3 repetitions, {len(bad())} declarations that make no sense; dictionary, JSON file, twice"


def cases(tier):
    out = [{"k": "one", "v": [d]} for d in D]
    rep = D[:: max(1, len(D) // 48)] if tier == "quick" else D[::2]
    out += [{"k": "one", "v": [a, b]} for a in rep for b in rep]
    out += [{"k": "cond", "v": d, "c": c} for d in D[::3] for c in range(len(CONDS))]
    out += [{"k": "abbr", "v": d, "n": n} for d in D for n in (None, 1, 2, 3)]
    out += [{"k": "bad", "what": w} for w in bad()]
    return out


def mk(d, name, cond=None):
    from bayes_optim import search_space as ss

    kw = copy.deepcopy(d[2])
    if isinstance(kw.get("default_value"), list):
        kw["default_value"] = tuple(kw["default_value"])
    if cond:
        kw["conditions"] = cond
    cls = getattr(ss, d[0])
    return cls(name=name, **kw) if d[1] is None else cls(list(d[1]), name=name, **kw)


def feat(v):
    c = getattr(v, "conditions", None)
    return {"name": v.name, "type": type(v).__name__, "bounds": tuple(v.bounds), "default": v.default_value, "precision": getattr(v, "precision", None), "scale": getattr(v, "scale", None),
            "step": getattr(v, "step", None), "cond": c["string"] if c else None}


def same_feat(a, b):
    if list(a) != list(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if k in ("bounds", "default"):
            if k == "bounds":
                if len(x) != len(y) or not all(type(p) == type(q) and p == q for p, q in zip(x, y)):
                    return False
            elif not (type(x) == type(y) and x == y):
                return False
        elif x != y:
            return False
    return True


def compare(ctx, s, t, how):
    ctx.step(how)
    A, B = [feat(v) for v in s.data], [feat(v) for v in t.data]
    ctx.eq([a["name"] for a in B], [a["name"] for a in A], f"{how}: names")
    for a, b in zip(A, B):
        ctx.check(same_feat(a, b), f"{how}: {b} instead of {a}")
    ctx.eq(type(t).__name__, type(s).__name__, f"{how}: class of the space")
    ctx.check(s == t, f"{how}: spaces are not equal")
    f = lambda sp: sorted(repr((sorted(k.items(), key=repr), [feat(v) for v in q.data])) for k, q in sp.get_unconditional_subspace())
    ctx.eq(f(t), f(s), f"{how}: subspaces")
    np.random.seed(5)
    X = s.sample(3)
    np.random.seed(5)
    Y = t.sample(3)
    ctx.check(all(type(p) == type(q) and p == q for p, q in zip(X.ravel(), Y.ravel())), f"{how}: samples differ: {X.tolist()} vs. {Y.tolist()}")


def round_trip(ctx, s):
    from bayes_optim.search_space import SearchSpace

    before = [feat(v) for v in s.data]
    d = s.to_dict()
    compare(ctx, s, SearchSpace.from_dict(copy.deepcopy(d)), "from_dict(to_dict)")
    compare(ctx, s, SearchSpace.from_dict(SearchSpace.from_dict(d).to_dict()), "twice from_dict(to_dict)")
    f = os.path.join(os.getcwd(), "space.json")
    s.to_json(f)
    t = SearchSpace.from_json(f)
    compare(ctx, s, t, "from_json(to_json)")
    t.to_json(f)
    compare(ctx, s, SearchSpace.from_json(f), "twice from_json(to_json)")
    os.remove(f)
    ctx.check(all(same_feat(a, feat(v)) for a, v in zip(before, s.data)), "writing changed the space")
    ctx.state(repr(before))


def run_case(case, ctx):
    from bayes_optim.search_space import SearchSpace

    if case["k"] == "one":
        round_trip(ctx, SearchSpace([mk(d, f"v{i}") for i, d in enumerate(case["v"])]))
        ctx.trace()
    elif case["k"] == "cond":
        s = SearchSpace([mk(x, f"s{i}") for i, x in enumerate(SELS)] + [mk(["Ordinal", [0, 1], {}], "u", "s0 == 'b'")] + [mk(case["v"], "leaf", CONDS[case["c"]]), mk(case["v"], "free")])
        round_trip(ctx, s)
        ctx.trace()
    elif case["k"] == "abbr":
        d, n = case["v"], case["n"]
        for t in ABBR[d[0]]:
            e = {"type": t}
            if d[1] is not None:
                e["range"] = list(d[1])
            if n is not None:
                e["N"] = n
            want = {"precision": None, "scale": "linear", "step": 1, "default": None}
            for k, key in (("precision", "precision"), ("scale", "scale"), ("step", "step"), ("default_value", "default")):
                if k in d[2] and d[2][k] is not None:
                    e[key] = list(d[2][k]) if isinstance(d[2][k], tuple) else d[2][k]
                    want[key] = tuple(d[2][k]) if isinstance(d[2][k], (tuple, list)) else d[2][k]
            p = {"first": {"type": "b"}, "v": e, "last": {"type": "i", "range": [0, 3]}}
            keep = json.dumps(p)
            s = SearchSpace.from_dict(p)
            ctx.step(e)
            ctx.eq(json.dumps(p), keep, "from_dict changed its input")
            m = n or 1
            ctx.eq(len(s), m + 2, f"number of variables from {p}")
            nm = s.var_name
            ctx.check(nm[0] == "first" and nm[-1] == "last" and len(set(nm)) == m + 2, f"names {nm}")
            ctx.check(nm[1:-1] == ["v"] if m == 1 else all(x.startswith("v") for x in nm[1:-1]), f"names {nm}")
            for v in s.data[1:-1]:
                w = mk(d, v.name)
                w.default_value = want["default"]
                ctx.check(same_feat(feat(v), feat(w)), f"{e}: {feat(v)} instead of {feat(w)}")
            ctx.state(repr((e, n)))
        ctx.trace()
    else:
        for p in ({"a": {"type": "b"}, "v": case["what"]}, {"v": case["what"], "a": {"type": "b"}}, {"v": {**case["what"], "N": 2}}):
            try:
                s = SearchSpace.from_dict(copy.deepcopy(p))
            except Exception:
                ctx.step("rejected")
                ctx.trace()
                continue
            raise Violation(f"the invalid declaration {p} was read as {s}")
        ctx.state(repr(case["what"]))
