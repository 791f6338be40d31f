"""P13: sampling is uniform over the declared space on the declared scale, for every method and every answer of the random generator."""
import itertools
import math
from collections import Counter

import numpy as np

from mc import rng, spaces

LEVEL = "model_checking"
ASSUMPTIONS = ["random draws come from numpy's global generator", "quantiles are compared up to a relative error of 1e-9"]
CHUNK = 2

REALS = [["r", -5.0, 5.0], ["r", 0.0, 1.0], ["r", -3.0, -1.0], ["r", 0.01, 100.0, {"scale": "log"}], ["r", 0.001, 10.0, {"scale": "log10"}], ["r", -10.0, 100.0, {"scale": "bilog"}], ["r", -7.0, -0.5, {"scale": "bilog"}],
         ["r", 1e-10, 1e-8, {"scale": "log10"}], ["r", 0.0, 1e-9], ["r", 1e6, 1e6 + 0.25], ["r", 1e-12, 1.0, {"scale": "log"}],
         ["r", 0.1, 0.9, {"scale": "logit"}], ["r", 0.25, 1.0, {"scale": "logit"}], ["r", -1.0, 2.0, {"precision": 1}], ["r", 0.05, 9.97, {"precision": 0}], ["r", 0.5, 8.0, {"scale": "log", "precision": 2}], ["r", 0, 3], ["r", 1e-8, 1e8, {"scale": "log"}]]
# the lower bound is outside the range of the scale
ZERO = [["r", 0.0, 1.0, {"scale": "log"}], ["r", 0, 100.0, {"scale": "log10"}], ["r", 0.0, 1.0, {"scale": "logit"}]]
FIN = {
    "i": [["i", -3, 4]], "is": [["i", 1, 10, 4]], "is2": [["i", 0, 9, 3]], "d": [["d", ["a", "", "c"]]], "o": [["o", [10, 2.5, 3]]], "b": [["b"]], "s": [["s", ["u", "v", "w"]]],
    "mixA": [["d", ["x", "y"]], ["i", 0, 2], ["b"]], "mixB": [["s", ["u", "v"]], ["d", [1, 2]], ["b"]], "mixC": [["i", -1, 1], ["s", ["p", "q"]], ["i", 0, 4, 2]], "mixD": [["o", [3, 1]], ["d", ["m", "n"]], ["s", ["k", "l"]], ["i", 7, 8], ["b"]],
}
MIX = {
    "ri": [["r", 0.0, 1.0], ["i", 0, 2]], "rd": [["d", ["a", "b"]], ["r", 0.01, 100.0, {"scale": "log"}], ["b"]], "rr": [["r", -5.0, 5.0], ["r", 0.001, 10.0, {"scale": "log10"}]],
    "rir": [["r", 0.5, 8.0, {"scale": "log", "precision": 2}], ["s", ["u", "v"]], ["r", -1.0, 2.0, {"precision": 1}]], "rrr": [["r", 0.1, 0.9, {"scale": "logit"}], ["r", -10.0, 100.0, {"scale": "bilog"}], ["r", 2.0, 3.0]],
}


def BOUNDS(tier):
    return (f"{len(REALS)} real variables x 5 uniform answers x N=1,2(,3); {len(FIN)} finite and {len(MIX)} mixed spaces: all answers of all draws for N=1 and 2 (spaces up to {'60' if tier == 'quick' else '250'} points for N=2); "
            "integers of every width up to 7 (12) and step 1-5; Latin hypercubes of 2-6 points in 1-3 dimensions with every deviating draw; Sobol designs of 1-15 points; membership of every point of a grid")


def cases(tier):
    out = []
    for i in range(len(REALS)):
        for N in (1, 2) if tier == "quick" else (1, 2, 3):
            out.append({"k": "lat", "sp": [REALS[i]], "N": N})
        for N in (2, 3, 4, 6):
            out.append({"k": "lhs", "sp": [REALS[i]], "N": N, "b": 1})
    for sp in ZERO:
        for N in (1, 2):
            out.append({"k": "lat", "sp": [sp], "N": N})
            out.append({"k": "lat", "sp": [sp, ["b"]], "N": N})
    for s in list(FIN) + list(MIX):
        sp = FIN.get(s) or MIX[s]
        size = math.prod(len(spaces.values(v)) if v[0] != "r" else 5 for v in sp)
        for N in (1, 2):
            if N == 1 or size <= (60 if tier == "quick" else 250):
                for meth in ("uniform", "LHS", "sobol") if s in FIN else ("uniform",):
                    out.append({"k": "lat", "sp": sp, "N": N, "meth": meth})
        for meth in ("LHS", "sobol", "uniform"):
            for N in (1, 3, 4):
                out.append({"k": "meth", "sp": sp, "meth": meth, "N": N, "b": 1 if tier == "quick" else 2})
        out.append({"k": "in", "sp": sp})
    for i in range(len(REALS)):
        out.append({"k": "in", "sp": [REALS[i]]})
    # every integer range and step, whether or not the step divides the range
    for lo in (-3, 0, 2):
        for w in range(1, 8 if tier == "quick" else 13):
            for step in range(1, 6):
                sp = [["i", lo, lo + w, step]]
                out += [{"k": "lat", "sp": sp, "N": 1, "meth": "uniform"}, {"k": "lat", "sp": sp + [["b"]], "N": 1, "meth": "LHS"}, {"k": "in", "sp": sp}]
    for sp in (["i", 0, 1000000], ["i", -500000, 500000, 7], ["i", 10**9, 10**9 + 10**6, 1000]):
        out += [{"k": "in", "sp": [sp]}, {"k": "in", "sp": [["b"], sp]}]
    for n in (1, 2, 4):
        for t in ("d", "o", "s"):
            sp = [[t, ["a", "b", "c", "d"][:n]]]
            out += [{"k": "lat", "sp": sp, "N": 1, "meth": "uniform"}, {"k": "in", "sp": sp}]
    for s in ("rr", "rrr"):
        for N in (2, 3, 5):
            out.append({"k": "lhs", "sp": MIX[s], "N": N, "b": 1})
    for d in (1, 2, 3):
        out.append({"k": "sobol", "sp": [REALS[0], REALS[3], REALS[7]][:d]})
    return out


def fwd(scale, x):
    if scale == "log":
        return math.log(x)
    if scale == "log10":
        return math.log10(x)
    if scale == "bilog":
        return math.copysign(math.log1p(abs(x)), x)
    if scale == "logit":
        return math.log(x / (1 - x)) if x < 1 else math.inf
    return x


def inv(scale, y):
    if scale == "log":
        return math.exp(y)
    if scale == "log10":
        return 10.0**y
    if scale == "bilog":
        return math.copysign(math.expm1(abs(y)), y)
    if scale == "logit":
        return 1 / (1 + math.exp(-y))
    return y


def par(spec):
    kw = spec[3] if len(spec) > 3 else {}
    return kw.get("scale", "linear"), kw.get("precision")


def ends(spec):
    """transformed bounds; the scales work from 1e-300 (logarithms) and up to 1 - 1e-16 (logit)"""
    sc, _ = par(spec)
    hi = min(spec[2], 1 - 1.1102230246251565e-16) if sc == "logit" else spec[2]
    lo = max(spec[1], 1e-300) if sc in ("log", "log10", "logit") else spec[1]
    return fwd(sc, lo), fwd(sc, hi)


def quantile(spec, u):
    sc, prec = par(spec)
    a, b = ends(spec)
    x = inv(sc, a + u * (b - a))
    if prec is not None:
        x = float(np.round(x, prec))
    return min(max(x, spec[1]), spec[2])


def canon(spec, v):
    """index of the value among the expected ones (quantiles of the grid or levels)"""
    if isinstance(v, np.generic):
        v = v.item()
    why = spaces.admissible(spec, v)
    if why:
        return None, why
    if spec[0] == "r":
        qs = sorted({quantile(spec, u) for u in rng.Lattice.GRID})
        for k, q in enumerate(qs):
            if abs(v - q) <= 1e-9 * max(0 if spec[1] == 0 and par(spec)[0] != "linear" else 1e-6, abs(q), abs(v)):
                return k, None
        return None, f"{v!r} is none of the expected quantiles {qs} of {spec}"
    for k, w in enumerate(spaces.values(spec)):
        if spaces.same(v, w):
            return k, None
    return None, f"{v!r} unexpected"


def run_case(case, ctx):
    specs = case["sp"]
    space = spaces.build(specs)
    N = case.get("N", 1)
    rows_ok = lambda X, n: ctx.eq(np.asarray(X).shape, (n, len(specs)), "shape of the sample")

    def adm(X):
        for row in X:
            for s, v in zip(specs, row):
                why = spaces.admissible(s, v.item() if isinstance(v, np.generic) else v)
                ctx.check(why is None, f"sample {list(row)}: {why}")

    if case["k"] == "lat":
        seen = Counter()

        def run(env):
            X = space.sample(N, method=case.get("meth", "uniform"))
            ctx.step(None)
            rows_ok(X, N)
            key = []
            for row in X:
                for s, v in zip(specs, row):
                    k, why = canon(s, v)
                    ctx.check(why is None, f"sample {[list(r) for r in X]} for the random numbers {env.taken}: {why}")
                    key.append(k)
            seen[tuple(key)] += 1

        n, complete = rng.explore_lattice(run)
        ctx.check(complete, "enumeration did not finish")
        # every combination of expected values, with the multiplicity of the uniform distribution
        axes = []
        for s in specs:
            if s[0] == "r":
                qs = [quantile(s, u) for u in rng.Lattice.GRID]
                vals = sorted(set(qs))
                # values that agree up to the comparison tolerance are one value
                axes.append(Counter(canon(s, q)[0] for q in qs))
            else:
                axes.append(Counter(range(len(spaces.values(s)))))
        total = math.prod(sum(a.values()) for a in axes) ** N
        want = {}
        for combo in itertools.product(*(list(a.items()) for a in axes * N)):
            want[tuple(k for k, _ in combo)] = math.prod(c for _, c in combo) / total
        got = {k: c / n for k, c in seen.items()}
        ctx.check(set(got) == set(want), lambda: f"values that never occur (index per variable): {sorted(set(want) - set(got))[:5]}; unexpected: {sorted(set(got) - set(want))[:5]}")
        for k in want:
            ctx.check(abs(got[k] - want[k]) < 1e-9, f"the combination {k} has probability {got[k]} instead of {want[k]}")
            ctx.state((str(specs), N, k))
        ctx.trace(n)
        ctx.sample(f"{n} executions, {len(seen)} distinct samples")
    elif case["k"] == "lhs":

        def run(env):
            X = space.sample(N, method="LHS")
            ctx.step(None)
            rows_ok(X, N)
            adm(X)
            for j, s in enumerate(specs):
                sc, prec = par(s)
                if prec is not None:
                    continue
                a, b = ends(s)
                # strata may be met at their (closed) borders
                u = sorted((fwd(sc, min(float(v), 1 - 1.1102230246251565e-16) if sc == "logit" else float(v)) - a) / (b - a) for v in X[:, j])
                tol = 1e-3 if sc == "logit" and s[2] == 1.0 else 1e-9  # 1 - x loses its digits next to one
                for k, q in enumerate(u):
                    ctx.check(k / N - tol <= q <= (k + 1) / N + tol, f"Latin hypercube {X.tolist()}: stratum {k} of variable {j} has no point ({u})")
            ctx.state((str(specs), N, str(X.tolist())))

        n, _ = rng.explore(run, bound=case["b"], by_site=False, ctx=ctx)
        ctx.trace(n)
    elif case["k"] == "meth":
        outs = []

        def run(env):
            X = space.sample(N, method=case["meth"])
            ctx.step(None)
            rows_ok(X, N)
            adm(X)
            for row in X:
                ctx.check(list(row) in space, f"the sample {list(row)} is not in the space it comes from")
            ctx.state((str(specs), case["meth"], str(X.tolist())))

        n, _ = rng.explore(run, bound=case["b"], by_site=False, ctx=ctx)
        ctx.trace(n)
    elif case["k"] == "sobol":
        for N in range(1, 16):
            X = space.sample(N, method="sobol")
            ctx.step(None)
            rows_ok(X, N)
            adm(X)
            ctx.check(len({tuple(r) for r in X}) == N, f"repeated points in a Sobol design: {X.tolist()}")
            if N in (1, 3, 7, 15):
                for j, s in enumerate(specs):
                    sc, _ = par(s)
                    a, b = ends(s)
                    u = sorted((fwd(sc, float(v)) - a) / (b - a) for v in X[:, j])
                    # low discrepancy: every half / quarter / ... holds its share of the points
                    m = N + 1
                    for h in [2**e for e in range(1, 5) if 2**e <= m]:
                        cnt = Counter(min(int(q * h + 1e-9), h - 1) for q in u)
                        ctx.check(all(m // h - 1 <= cnt[c] <= m // h for c in range(h)), f"Sobol design unbalanced in variable {j}: {u}")
            ctx.state((str(specs), N))
        ctx.trace(15)
    else:  # membership
        axes = []
        for s in specs:
            if s[0] == "r":
                lo, hi = s[1], s[2]
                good, bad = [float(lo), float(hi), (lo + hi) / 2], [float(np.nextafter(lo, -np.inf)), float(np.nextafter(hi, np.inf)), lo - 1.0, hi + 1.0]
                if par(s)[0] == "logit" and hi == 1.0:
                    good, bad = [float(lo), (lo + hi) / 2], bad
            elif s[0] == "i":
                st = s[3] if len(s) > 3 else 1
                good = spaces.values(s) if s[2] - s[1] < 1000 else [s[1] + k * st for k in (0, 1, (s[2] - s[1]) // (2 * st), (s[2] - s[1]) // st)]
                half = [g + f * st for g in good[:-1] for f in (0.5, 0.25)]  # between two steps
                bad = half + [s[1] - st, good[-1] + st] if s[2] - s[1] >= 1000 else half + [s[1] - st, good[-1] + st] + [v for v in range(s[1], s[2] + 1) if v not in good]
            elif s[0] == "s":
                good, bad = spaces.values(s), [("nobody",), tuple(s[1]) + ("nobody",)]
            elif s[0] == "b":
                good, bad = [True, False], ["true", 2]
            else:
                good, bad = spaces.values(s), ["nobody", -77]
            axes.append([(g, True) for g in good] + [(b, False) for b in bad])
        if len(axes) > 3:
            axes = [a[:2] + a[-1:] for a in axes]
        nm = spaces.names(specs)
        for combo in itertools.product(*axes):
            want = all(ok for _, ok in combo)
            x = [v for v, _ in combo]
            ctx.step(None)
            ctx.eq(bool(x in space), want, f"membership of {x}")
            ctx.eq(bool(dict(zip(nm, x)) in space), want, f"membership of {dict(zip(nm, x))}")
            for v, ok in combo:
                pass
            ctx.state((str(specs), str(x)))
        for s, a, n_ in zip(specs, axes, nm):
            for v, ok in a:
                ctx.eq(bool(v in space[n_]), ok, f"membership of {v!r} in {n_}")
        ctx.trace()
