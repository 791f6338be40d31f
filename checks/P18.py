"""P18: Pareto-efficient subsets are exactly the non-dominated points."""
import itertools

import numpy as np

from mc import bo, rng, tells

LEVEL = "model_checking"
ASSUMPTIONS = ["objective values are finite"]
CHUNK = 4
G2 = [list(p) for p in itertools.product((0.0, 1.0, 2.0), repeat=2)]
G3 = [list(p) for p in itertools.product((0.0, 1.0), repeat=3)]
SCALE = [(1.0, 0.0), (1e-9, 0.0), (1e-7, 1e3), (1e6, -5e5)]


def BOUNDS(tier):
    n = 4 if tier == "quick" else 5
    return f"all sequences of up to {n} objective vectors over a 3x3 grid (2 objectives) and up to {n} over a 2x2x2 grid (3 objectives), 4 scalings, all direction vectors, duplicates included; the optimizer's incumbent after every tell of all histories of {n - 1} vectors; sets and histories of 19 and 60 vectors (fronts, chains, layers, mixtures) in rotated orders"


def cases(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for g in (2, 3):
        G = G2 if g == 2 else G3
        for first in range(len(G)):
            for second in range(len(G)):
                out.append({"k": "fun", "g": g, "pre": [first, second], "n": n})
    for g in (2, 3):
        G = G2 if g == 2 else G3
        for first in range(len(G)):
            for mi in itertools.product((True, False), repeat=g):
                out.append({"k": "bo", "g": g, "first": first, "min": list(mi), "n": n - 1})
    for n, kind in itertools.product((19, 60), MANY):
        for r in range(0, n, 1 if n == 19 else 7):
            out.append({"k": "many", "g": 2 + r % 2, "n": n, "kind": kind, "rot": r})
    return out


MANY = {
    "front": lambda i, n: [i, n - i],
    "chain": lambda i, n: [i // 2, i // 2],
    "layers": lambda i, n: [i % 7 - i // 7, 7 - i % 7 - i // 7],
    "mixed": lambda i, n: [(i * 7) % n, (i * i) % n],
}


def dominates(a, b):
    """maximization"""
    return all(x >= y for x, y in zip(a, b)) and any(x > y for x, y in zip(a, b))


def efficient(Y):
    return [i for i, y in enumerate(Y) if not any(dominates(z, y) for z in Y)]


def run_case(c, ctx):
    G = G2 if c["g"] == 2 else G3
    if c["k"] == "many":
        Y = [[float(v) for v in MANY[c["kind"]](i, c["n"])] + [float(i % 4)] * (c["g"] - 2) for i in range(c["n"])]
        Y = Y[c["rot"] :] + Y[: c["rot"]]
        ctx.new_trace()
        funcs(Y, ctx)
        if c["rot"] % 3 == 0:
            mobo({"min": [(c["rot"] + j) % 2 == 0 for j in range(c["g"])]}, Y, ctx, tells.MANY, 1 if c["n"] == 19 else 15)
        return
    if c["k"] == "bo":
        for tail in itertools.product(range(len(G)), repeat=c["n"] - 1):
            ctx.new_trace()
            mobo(c, [G[c["first"]]] + [G[i] for i in tail], ctx)
        return
    for extra in range(c["n"] - 1):
        for tail in itertools.product(range(len(G)), repeat=extra):
            funcs([G[i] for i in c["pre"] + list(tail)], ctx)
    if c["pre"][1] == 0:
        funcs([G[c["pre"][0]]], ctx)


def funcs(Y, ctx):
    import torch
    from bayes_optim.utils import is_pareto_efficient
    from bayes_optim.utils.multi_objective.pareto import fast_non_dominated_sort, is_non_dominated

    eff = efficient(Y)
    vals = {tuple(Y[i]) for i in eff}
    k = int(sum(map(sum, Y))) % len(SCALE)
    a, b = SCALE[k]
    T = np.array(Y) * a + b
    ctx.state(("fun", repr(Y)))

    m = is_non_dominated(torch.from_numpy(T), deduplicate=False).tolist()
    ctx.check([i for i, v in enumerate(m) if v] == eff, lambda: f"is_non_dominated({T.tolist()}, deduplicate=False) = {m}, expected {eff}")
    m = [i for i, v in enumerate(is_non_dominated(torch.from_numpy(T)).tolist()) if v]
    ctx.check({tuple(Y[i]) for i in m} == vals and len(m) == len(vals), lambda: f"is_non_dominated({T.tolist()}) selects {m}; the efficient values are {sorted(vals)}")
    mb = is_non_dominated(torch.from_numpy(np.stack([T, -T])), deduplicate=False).tolist()
    ctx.check([i for i, v in enumerate(mb[0]) if v] == eff and [i for i, v in enumerate(mb[1]) if v] == efficient((-T).tolist()), "batched is_non_dominated differs from the single one")

    # the following two minimize
    F = -T
    m = is_pareto_efficient(F.copy())
    s = [i for i, v in enumerate(m) if v]
    ctx.check({tuple(Y[i]) for i in s} == vals and len(m) == len(Y), lambda: f"is_pareto_efficient({F.tolist()}) selects {s}; the efficient values are {sorted(vals)}")
    idx = is_pareto_efficient(F.copy(), return_mask=False)
    ctx.check(sorted(map(int, idx)) == s, lambda: f"is_pareto_efficient: indices {idx} but mask {s}")

    fronts = fast_non_dominated_sort(F.T.copy())
    left = list(range(len(Y)))
    want = []
    while left:
        e = [left[i] for i in efficient([Y[j] for j in left])]
        want.append(e)
        left = [i for i in left if i not in e]
    ctx.check([sorted(map(int, f)) for f in fronts] == want, lambda: f"fast_non_dominated_sort({F.tolist()}) = {fronts}, expected {want}")
    ctx.step(n=6)
    ctx.trace()


def mobo(c, Y, ctx, P=tells.POINTS, batch=1):
    mi = c["min"]
    a, b = SCALE[int(sum(map(sum, Y))) % len(SCALE)]
    with rng.controlled(rng.Env()):
        opt = bo.make("MOBO", tells.SPECS, names=tells.NM, minimize=mi if len(set(mi)) > 1 else mi[0], n_obj=len(mi), DoE_size=2, z=tells.POINTS[0])
        hist = []
        for k in range(0, len(Y), batch):
            new = [(p, tuple(v * a + b for v in y)) for p, y in zip(P[k : k + batch], Y[k : k + batch])]
            hist += new
            opt.tell([list(p) for p, _ in new], [f for _, f in new])
            ctx.step(f"tell({new})")
            Z = [[-v if m else v for v, m in zip(g, mi)] for _, g in hist]
            vals = {hist[i][1] for i in efficient(Z)}
            for s in (opt.xopt, opt.recommend()):
                got = list(zip(s.tolist(), [tuple(v) for v in s.fitness.tolist()]))
                ctx.check({v for _, v in got} == vals, lambda: f"the efficient set has values {sorted({v for _, v in got})}, expected {sorted(vals)} for minimize={mi} and {[g for _, g in hist]}")
                ctx.check(all((x, v) in hist for x, v in got), lambda: f"the efficient set {got} contains pairs that were never observed")
            ctx.state(("bo", repr(mi), repr(hist)))
    ctx.trace()
