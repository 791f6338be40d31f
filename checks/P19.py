"""P19: hypervolume and decompositions of the non-dominated region agree with a brute-force cell count."""
import itertools

import numpy as np

LEVEL = "model_checking"
ASSUMPTIONS = ["maximization, as documented; coordinates from small grids (affinely scaled)"]
CHUNK = 4


def grid(k, m):
    return [list(map(float, p)) for p in itertools.product(range(k), repeat=m)]


GR = {"2": (grid(4, 2), 2), "3": (grid(3, 3), 3), "4": (grid(2, 4), 4)}
REF = {"2": [(0.0, 0.0), (-1.0, 0.0), (1.0, 1.0), (0.0, 2.0)], "3": [(0.0, 0.0, 0.0), (-1.0, 0.0, 1.0), (0.5, -0.5, 0.0)], "4": [(0.0, 0.0, 0.0, 0.0), (-1.0, 0.0, -1.0, 0.0)]}


def BOUNDS(tier):
    return ("all sets of up to %d points of a 4x4 grid (2 objectives), up to %d of 3x3x3, up to %d of 2^4, in two orders, 2-4 reference points each, four scalings; every split of the points into two updates and one point per update; batches of two sets of up to two (three) points of a 3x3 grid" % ((4, 3, 3) if tier == "quick" else (6, 4, 5)))


def cases(tier):
    N = {"2": 4, "3": 3, "4": 3} if tier == "quick" else {"2": 6, "3": 4, "4": 5}
    out = []
    for g in GR:
        for i in range(len(GR[g][0])):
            for r in range(len(REF[g])):
                out.append({"g": g, "first": i, "ref": r, "n": N[g]})
    # batches of two point sets (two objectives)
    S = sets(2 if tier == "quick" else 3)
    for i in range(len(S)):
        for r in range(2):
            out.append({"g": "b", "first": i, "ref": r, "n": 2 if tier == "quick" else 3})
    return out


def sets(n):
    return [list(t) for k in range(1, n + 1) for t in itertools.combinations(grid(3, 2), k)]


def batch(c, ctx):
    import torch
    from bayes_optim.utils.multi_objective.box_decompositions import non_dominated as nd

    S = sets(c["n"])
    A = S[c["first"]]
    ref = [(0.0, 0.0), (-1.0, 1.0)][c["ref"]]
    for B in S:
        if len(B) != len(A):
            continue
        T = torch.tensor([A, B], dtype=torch.double)
        for cls in (nd.NondominatedPartitioning, nd.FastNondominatedPartitioning):
            for s in range(len(A)):  # 0: all at once
                bd = cls(ref_point=torch.tensor(ref, dtype=torch.double), Y=T[:, : s or len(A)])
                if s:
                    bd.update(T[:, s:])
                cells = bd.get_hypercell_bounds()
                hv = bd.compute_hypervolume()
                for i, Y in enumerate((A, B)):
                    name = f"{cls.__name__} of the batch {[A, B]} after update at {s}: element {i}"
                    want = volume(Y, ref)
                    ctx.check(close(float(hv[i]), want), lambda: f"{name}: hypervolume {float(hv[i])}, expected {want}")
                    coverage(cells[0][i].tolist(), cells[1][i].tolist(), Y, list(ref), 2, ctx, name, 1.0)
                ctx.step(n=2)
        ctx.state((repr(A), repr(B), ref))
        ctx.trace()


def run_case(c, ctx):
    if c["g"] == "b":
        return batch(c, ctx)
    G, m = GR[c["g"]]
    rest = range(c["first"] + 1, len(G))
    for k in range(c["n"]):
        for t in itertools.combinations(rest, k):
            idx = (c["first"],) + t
            Y = [G[i] for i in idx]
            one(Y if sum(idx) % 2 else Y[::-1], REF[c["g"]][c["ref"]], m, ctx, sum(idx))
            if k == 1:  # a duplicated point
                one([Y[0], Y[1], Y[0]], REF[c["g"]][c["ref"]], m, ctx, sum(idx))


def volume(Y, ref):
    """volume dominated by Y above ref, by counting the cells of the coordinate grid"""
    m = len(ref)
    ax = [sorted({ref[j]} | {y[j] for y in Y if y[j] > ref[j]}) for j in range(m)]
    v = 0.0
    for cell in itertools.product(*[range(len(a) - 1) for a in ax]):
        lo = [ax[j][k] for j, k in enumerate(cell)]
        hi = [ax[j][k + 1] for j, k in enumerate(cell)]
        if any(all(y[j] >= hi[j] for j in range(m)) for y in Y):
            p = 1.0
            for a, b in zip(lo, hi):
                p *= b - a
            v += p
    return v


def close(a, b, unit=1.0):
    return abs(a - b) <= 1e-9 * max(unit, abs(b))


def pareto(Y):
    dom = lambda a, b: all(x >= y for x, y in zip(a, b)) and any(x > y for x, y in zip(a, b))
    return {tuple(y) for y in Y if not any(dom(z, y) for z in Y)}


def one(Y, ref, m, ctx, salt):
    import torch
    from bayes_optim.utils.multi_objective import Hypervolume
    from bayes_optim.utils.multi_objective.box_decompositions import non_dominated as nd

    a = (1.0, 0.125, 2.0**-30, 2.0**20)[salt % 4]  # powers of two: the scaled coordinates are exact
    b = 0.0 if salt % 3 else 10.0 * max(a, 2.0**-20)
    unit = a**m * (1.0 if b == 0 else max(1.0, (b / a) ** m * 1e-6))
    Ys = [[a * v + b for v in y] for y in Y]
    rs = [a * v + b for v in ref]
    T = torch.tensor(Ys, dtype=torch.double)
    R = torch.tensor(rs, dtype=torch.double)
    want = volume(Ys, rs)
    ctx.state((repr(Y), ref, a, b))

    P = sorted(pareto(Ys))
    hv = Hypervolume(ref_point=R)
    ctx.check(hv.ref_point.tolist() == rs, "the reference point of Hypervolume")
    got = float(hv.compute(torch.tensor(P if salt % 2 else P[::-1], dtype=torch.double)))
    ctx.check(close(got, want, unit), lambda: f"hypervolume of {P} w.r.t. {rs} is {got}, expected {want}")
    again = float(hv.compute(torch.tensor(P, dtype=torch.double)))
    ctx.check(close(again, want, unit), lambda: f"computing the hypervolume again gives {again}, expected {want}")
    ctx.step(n=2)
    for o in itertools.permutations(range(len(Ys))) if len(Ys) <= 3 else (range(len(Ys)), range(len(Ys))[::-1]):
        Q = T[list(o)]
        got = float(hv.compute(Q))
        ctx.check(close(got, want, unit), lambda: f"hypervolume of {Q.tolist()} (dominated and repeated points included) w.r.t. {rs} is {got}, expected {want}")
        ctx.step()

    classes = [nd.NondominatedPartitioning, nd.FastNondominatedPartitioning]
    for cls in classes:
        if m == 4 and cls is nd.NondominatedPartitioning and len(P) > 3:
            continue
        bd = cls(ref_point=R, Y=T)
        verify(bd, Ys, rs, m, ctx, cls.__name__, want, a, unit)
        # incremental: first some points, then the others
        for s in range(1, len(Ys)):
            inc = cls(ref_point=R, Y=T[:s])
            inc.update(T[s:])
            verify(inc, Ys, rs, m, ctx, f"{cls.__name__} after update at {s}", want, a, unit)
        late = cls(ref_point=R)  # one point at a time, the decomposition starts empty
        for s in range(len(Ys)):
            late.update(T[s : s + 1])
            if s % 2:
                late.get_hypercell_bounds()
        verify(late, Ys, rs, m, ctx, f"{cls.__name__} after {len(Ys)} updates", want, a, unit)
    ctx.trace()


def verify(bd, Ys, rs, m, ctx, name, want, a, unit):
    P = {p for p in pareto(Ys) if all(v > r for v, r in zip(p, rs))}
    got = {tuple(p) for p in bd.pareto_Y.tolist()}
    ctx.check(got == P, lambda: f"{name}: Pareto set {sorted(got)} of {Ys} above {rs}, expected {sorted(P)}")
    lo, hi = [t.tolist() for t in bd.get_hypercell_bounds()]
    coverage(lo, hi, Ys, rs, m, ctx, name, a)
    v = float(bd.compute_hypervolume())
    ctx.check(close(v, want, unit), lambda: f"{name}: hypervolume {v} of {Ys} above {rs}, expected {want}")
    ctx.step(n=3)


def coverage(lo, hi, Ys, rs, m, ctx, name, a):
    """every non-dominated point above the reference point lies in exactly one cell, no other point in any"""
    ax = [sorted({rs[j]} | {y[j] for y in Ys if y[j] > rs[j]}) for j in range(m)]
    probes = [[(u + v) / 2 for u, v in zip(x, x[1:])] + [x[-1] + a * 0.3] for x in ax]
    for p in itertools.product(*probes):
        cells = sum(all(l < v < h for l, v, h in zip(L, p, H)) for L, H in zip(lo, hi))
        dominated = any(all(y[j] >= p[j] for j in range(m)) for y in Ys)
        ctx.check(cells == (0 if dominated else 1), lambda: f"{name}: the {'dominated' if dominated else 'non-dominated'} point {p} lies in {cells} cells, points {Ys}, reference {rs}")
    below = [rs[j] - 0.3 * a for j in range(m)]
    for j in range(m):
        p = [q[-1] for q in probes]
        p[j] = below[j]
        cells = sum(all(l < v < h for l, v, h in zip(L, p, H)) for L, H in zip(lo, hi))
        ctx.check(cells == 0, lambda: f"{name}: a cell reaches below the reference point {rs} at {p}")
