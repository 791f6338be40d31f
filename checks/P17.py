"""P17: a set of solutions behaves like a table of records: values, objective values, counters and indices stay together."""
import copy
import csv
import itertools
import os
import pickle

import numpy as np

LEVEL = "model_checking"
ASSUMPTIONS = ["indices are integers (also numpy integers, negative ones), slices, lists, boolean masks and pairs of these", "values contain no field separators or line breaks when written as CSV"]
CHUNK = 8

VALS = {
    "plain": (["i", "d", "r"], [[1, "a", 2.5], [2, "b", 3.5], [3, "", -4.5], [0, "a", 0.0]]),
    "subset": (["s", "b", "t"], [[("u", "v"), True, ("p",)], [("u",), False, ("p", "q")], [("u", "v"), False, ("q",)], [("v",), True, ("p",)]]),
    "pair": (["s", "t"], [[("u", "v"), ("p", "q")], [("u", "w"), ("p", "q")], [("v", "w"), ("q", "r")], [("u", "v"), ("r", "s")]]),
    "one": (["x"], [[1 / 3], [1e-9], [-123456.789], [0.0]]),
    "many": (["i", "d", "r"], [[(7 * k) % 12, "abc"[k % 3], (5 * k % 12) / 8] for k in range(12)] + [[0, "a", 0.0]]),
    "none": (["a", "b"], [[1, None], [None, "z"], [0, False], [2.0, "y"]]),
}
# an operation is applied to the current solution set
ROWS = [0, 1, -1, "np-1", "np1", slice(0, 2), slice(1, None), slice(None, None, -1), slice(-2, None), [0], [1, 0], [0, -1], "mask", "npidx", slice(None), Ellipsis]
COLS = [None, 0, -1, "np0", slice(0, 1), slice(1, None), [0], "rev", slice(None)]
OPS = [["get", r, c] for r in range(len(ROWS)) for c in range(len(COLS))] + [["add"], ["iadd"], ["addperm"], ["addobj"], ["add1"], ["mul", 1], ["mul", 2], ["rmul", 3], ["dict"], ["copy"], ["copycopy"], ["deepcopy"], ["pickle"], ["setf"], ["setn"], ["seti"], ["seta"], ["iter"], ["csv"], ["toself"], ["unique"]]


def BOUNDS(tier):
    return f"all sequences of {2 if tier == 'quick' else 3} operations out of {len(OPS)} ({len(ROWS)} x {len(COLS)} row/column selections, concatenation, replication, conversion, assignment of attributes through slices, CSV) on {len(VALS)} tables of 4 (one of 13) records with 1 and 2 objectives; every combination of given and omitted constructor arguments"


def cases(tier):
    out = []
    for v in VALS:
        for m in (1, 2):
            for k in range(len(OPS)):
                out.append({"v": v, "m": m, "first": k, "d": 1 if v == "many" and tier == "quick" else 2 if tier == "quick" or v in ("none", "pair", "many") else 3})
    for v in VALS:
        for m in (1, 2, 3):
            for n in (0, 1, 2, 3):
                out.append({"k": "new", "v": v, "m": m, "n": n})
    return out


class T:
    """the model: a table"""

    def __init__(self, names, rows, fit, nev, idx, m, flat=False, prov=None):
        self.names, self.rows, self.fit, self.nev, self.idx, self.m, self.flat = list(names), [list(r) for r in rows], [list(f) for f in fit], list(nev), list(idx), m, flat
        self.prov = list(prov) if prov is not None else list(range(len(rows)))  # rows of the first table


def start(case):
    from bayes_optim.solution import Solution

    names, rows = VALS[case["v"]]
    m = case["m"]
    n = len(rows)
    fit = [[10.0 * k + j + 1e-9 / 3 for j in range(m)] for k in range(n)]
    nev = list(range(1, n + 1))
    t = T(names, rows, fit, nev, ["p", "q", "r0", "s"] if n == 4 else [str(k) for k in range(n)], m)
    s = Solution([list(r) for r in rows], fitness=[f if m > 1 else f[0] for f in fit], n_eval=list(nev), index=list(t.idx), var_name=list(names), n_obj=m, fitness_name=[f"o{j}" for j in range(m)])
    return s, t


def eqv(a, b):
    return type(a) == type(b) and a == b


def check(ctx, s, t, op):
    from bayes_optim.solution import Solution

    ctx.check(isinstance(s, Solution), f"{op}: result is a {type(s).__name__}")
    want_shape = (len(t.names),) if t.flat else (len(t.rows), len(t.names))
    ctx.eq(s.shape, want_shape, f"{op}: shape")
    L = s.tolist()
    rows = [L] if t.flat else L
    ctx.check(all(eqv(a, b) for r, q in zip(rows, t.rows) for a, b in zip(r, q)), f"{op}: values {rows} instead of {t.rows}")
    ctx.eq(list(map(str, s.var_name)), t.names, f"{op}: variable names")
    fit = np.asarray(s.fitness)
    f = fit.reshape(len(t.rows), t.m).tolist() if fit.size == len(t.rows) * t.m else f"{fit}"
    ctx.eq(f, t.fit, f"{op}: objective values")
    if t.flat:
        ctx.eq(fit.ndim, 1, f"{op}: a single solution has a vector of objective values")
    ctx.eq(list(map(int, s.n_eval)), t.nev, f"{op}: numbers of evaluations")
    ctx.eq(list(map(str, s.index)), t.idx, f"{op}: indices")
    ctx.eq(s.N, len(t.rows), f"{op}: N")
    ctx.eq(s.dim, len(t.names), f"{op}: dim")
    ctx.eq(s.n_obj, t.m, f"{op}: number of objectives")
    ctx.eq(list(s.fitness_name), [f"o{j}" for j in range(t.m)], f"{op}: names of the objectives")
    recs = [dict(zip(t.names, r)) for r in t.rows]
    same = lambda a, b: list(map(str, a)) == list(b) and all(eqv(a[k], b[k]) for k in b)
    d = s.to_dict()
    ctx.check(same(d, recs[0]) if t.flat else len(d) == len(recs) and all(same(a, b) for a, b in zip(d, recs)), f"{op}: to_dict gives {d} instead of {recs}")
    if len(set(t.idx)) == len(t.idx):
        d = s.to_dict(with_index=True)
        ctx.check(list(map(str, d)) == t.idx and all(same(a, b) for a, b in zip(d.values(), recs)), f"{op}: to_dict with index gives {d}")
        d = s.to_dict(orient="var", with_index=True)
        ctx.check(list(map(str, d)) == t.names and all(list(map(str, d[n])) == t.idx and all(eqv(a, b) for a, b in zip(d[n].values(), [r[k] for r in t.rows])) for k, n in enumerate(d)), f"{op}: to_dict by variable with index gives {d}")
    d = s.to_dict(orient="var")
    ctx.check(list(map(str, d)) == t.names and all(len(d[n]) == len(t.rows) and all(eqv(a, b) for a, b in zip(d[n], [r[k] for r in t.rows])) for k, n in enumerate(d)), f"{op}: to_dict by variable gives {d}")
    if t.rows and t.names:
        txt = str(s)
        ctx.check(all(n in txt for n in t.names), f"{op}: printing lacks a variable")


def rowsel(r, n):
    if r == "np-1":
        return np.int64(-1)
    if r == "np1":
        return np.int64(1)
    if r == "mask":
        return np.array([k % 2 == 0 for k in range(n)])
    if r == "npidx":
        return np.array([n - 1, 0])
    return r


def pick(sel, n):
    """list of positions, and whether the axis disappears"""
    if sel is Ellipsis:
        return list(range(n)), False
    if isinstance(sel, (int, np.integer)):
        return ([int(sel) % n], True) if -n <= sel < n else (None, True)
    if isinstance(sel, slice):
        return list(range(n))[sel], False
    sel = list(sel)
    if sel and isinstance(sel[0], (bool, np.bool_)):
        return [k for k, b in enumerate(sel) if b], False
    if any(not -n <= k < n for k in sel):
        return None, False
    return [int(k) % n for k in sel], False


def apply(ctx, op, s, t, case, base):
    """-> (s, t) or None when the operation does not apply"""
    from bayes_optim.solution import Solution

    o = op[0]
    n, d = len(t.rows), len(t.names)
    if n == 0 or d == 0:
        return None
    sub = lambda ri, ci, flat: T([t.names[c] for c in ci], [[t.rows[r][c] for c in ci] for r in ri], [t.fit[r] for r in ri], [t.nev[r] for r in ri], [t.idx[r] for r in ri], t.m, flat, [t.prov[r] for r in ri])
    if o == "get":
        r, c = rowsel(ROWS[op[1]], n), COLS[op[2]]
        if c == "rev":
            c = list(range(d))[::-1]
        if c == "np0":
            c = np.int64(0)
        if t.flat:
            if c is not None:
                return None
            # on a single solution the index selects variables
            r = rowsel(ROWS[op[1]], d)
            ci, gone = pick(r, d)
            if ci is None or gone or len(set(ci)) != len(ci):
                return None
            return s[r], sub([0], ci, True)
        ri, rgone = pick(r, n)
        if ri is None:
            return None
        if c is None:
            return s[r], sub(ri, list(range(d)), rgone)
        ci, cgone = pick(c, d)
        if ci is None or len(set(ci)) != len(ci):
            return None
        if rgone and cgone:
            v = s[r, c]
            ctx.check(eqv(v, t.rows[ri[0]][ci[0]]) or (isinstance(v, np.ndarray) and eqv(np.asarray(v).ravel()[0], t.rows[ri[0]][ci[0]])), f"{op}: element {v!r}")
            return None
        if isinstance(r, (list, np.ndarray)) and isinstance(c, list):
            return None  # numpy pairs up two lists
        return s[r, c], sub(ri, ci, rgone)
    if o in ("add", "iadd", "addperm", "add1", "addobj"):
        if len(t.names) != len(base[1].names) or (o == "addobj" and t.m == 1):
            return None
        b, bt = base
        if o == "add1":
            b, ri = b[2], [2]
        else:
            ri = list(range(len(bt.rows)))
        if o == "addperm":
            b = b[:, list(range(len(bt.names)))[::-1]]
        if o == "addobj":  # the other table lists its objectives in another order
            from bayes_optim.solution import Solution

            b = Solution([list(r) for r in bt.rows], fitness=[f[::-1] for f in bt.fit], n_eval=list(bt.nev), index=list(bt.idx), var_name=list(bt.names), n_obj=t.m, fitness_name=[f"o{j}" for j in range(t.m)][::-1])
        res = s
        if o == "iadd":
            res += b
        else:
            res = s + b
        new = T(t.names, t.rows + [[bt.rows[r][bt.names.index(nm)] for nm in t.names] for r in ri], t.fit + [bt.fit[r] for r in ri], t.nev + [bt.nev[r] for r in ri], t.idx + [bt.idx[r] for r in ri], t.m)
        new.prov = [None] * len(new.rows)
        return res, new
    if o in ("mul", "rmul"):
        if not t.flat:
            return None
        k = op[1]
        return (s * k if o == "mul" else k * s), T(t.names, t.rows * k, t.fit * k, t.nev * k, [str(i) for i in range(k)], t.m, prov=[None] * k)
    if o == "dict":
        x = s.to_dict()
        perm = (lambda q: {k: q[k] for k in list(q)[::-1]})
        y = perm(x) if t.flat else [x[0]] + [perm(q) for q in x[1:]]
        if t.flat:
            y = x
        r = Solution.from_dict(y, index=list(t.idx) if not t.flat else t.idx[0], fitness=[f if t.m > 1 else f[0] for f in t.fit] if not t.flat else (t.fit if t.m > 1 else t.fit[0]), n_eval=list(t.nev), n_obj=t.m, fitness_name=[f"o{j}" for j in range(t.m)])
        new = T(t.names, t.rows, [f for f in t.fit], t.nev, t.idx, t.m, t.flat, [None] * n)
        if t.flat and t.m > 1:
            # constructed single solutions keep one row of objective values
            np_f = np.asarray(r.fitness).reshape(-1)
            ctx.eq(np_f.tolist(), t.fit[0], f"{op}: objective values")
            return None
        return r, new
    if o in ("copy", "copycopy", "deepcopy", "pickle"):
        r = {"copy": lambda: s.copy(), "copycopy": lambda: copy.copy(s), "deepcopy": lambda: copy.deepcopy(s), "pickle": lambda: pickle.loads(pickle.dumps(s))}[o]()
        return r, T(t.names, t.rows, t.fit, t.nev, t.idx, t.m, t.flat, [None] * n)
    if o == "iter":
        got = [x for x in s]
        if t.flat:
            ctx.check(all(eqv(a, b) for a, b in zip(got, t.rows[0])), f"{op}: {got}")
        else:
            ctx.eq(len(got), n, f"{op}: number of items")
            for k, x in enumerate(got):
                check(ctx, x, sub([k], list(range(d)), True), f"item {k} of the iteration")
        return s, t
    if o == "seta":
        # assigning to the whole table
        s.fitness = [[-5.0 * k - j for j in range(t.m)] if t.m > 1 else -5.0 * k for k in range(n)] if not t.flat else ([-1.0 - j for j in range(t.m)] if t.m > 1 else [-1.0])
        s.n_eval = [7 + k for k in range(n)]
        s.index = [100 + 11 * k for k in range(n)]
        t.fit = [[-5.0 * k - j for j in range(t.m)] for k in range(n)] if not t.flat else [[-1.0 - j for j in range(t.m)]]
        t.nev = [7 + k for k in range(n)]
        t.idx = [str(100 + 11 * k) for k in range(n)]
        return s, t
    if o in ("setf", "setn", "seti"):
        # assigning through a slice of one record changes that record, in the table as well (documented)
        k = n - 1
        x = s if t.flat else s[k]
        if o == "setf":
            val = [-77.0 - j for j in range(t.m)]
            x.fitness = val if t.m > 1 else val[0]
            t.fit[k] = val
        elif o == "setn":
            x.n_eval += 1
            t.nev[k] += 1
        else:
            x.index = "a longer name"
            t.idx[k] = "a longer name"
        return s, t
    if o == "csv":
        if any("," in str(v) for r in t.rows for v in r):
            sep = ";"
        else:
            sep = ","
        f = os.path.join(os.getcwd(), "out.csv")
        for h, i, a in itertools.product((True, False), repeat=3):
            if os.path.exists(f):
                os.remove(f)
            s.to_csv(f, delimiter=sep, header=h, index=i, attribute=a)
            s.to_csv(f, delimiter=sep, header=False, index=i, attribute=a, append=True)
            with open(f) as fh:
                L = [l.rstrip("\n").split(sep) for l in fh]
            want = []
            if h:
                want.append(([""] if i else []) + t.names + (["n_eval"] + [f"o{j}" for j in range(t.m)] if a else []))
            body = [([t.idx[k]] if i else []) + [str(v) for v in t.rows[k]] + ([str(t.nev[k])] + [str(float(v)) for v in t.fit[k]] if a else []) for k in range(n)]
            ctx.eq(L, want + body + body, f"CSV with header={h}, index={i}, attribute={a}")
        os.remove(f)
        return s, t
    if o == "toself":
        ctx.check(s.to_list() == s.tolist(), "to_list and tolist differ")
        return s, t
    if o == "unique":
        seen, keep = [], []
        for k, r in enumerate(t.rows):
            if r not in seen:
                seen.append(r)
                keep.append(k)
        r = s.unique()
        if t.flat:
            return r, t
        return r, sub(keep, list(range(d)), False)
    raise KeyError(o)


NEW = {
    "fitness": {1: [None, 2.5, "vec"], 2: [None, 2.5, "one", "vec"], 3: [None, "one", "vec"]},
    "n_eval": ["default", 3, "list"],
    "index": [None, "scalar", "int", "list", "arr"],
    "var_name": [None, "list", "arr"],
    "fitness_name": [None, "str", "list"],
}


def construct(case, ctx):
    """every combination of given and omitted arguments of the constructor"""
    from bayes_optim.solution import Solution

    names, rows = VALS[case["v"]]
    m, n = case["m"], case["n"]
    flat = n == 0
    N = max(1, n)
    R = [list(r) for r in rows[:N]]
    F = [[10.0 * k + j for j in range(m)] for k in range(N)]
    for fi, ne, ix, vn, fn in itertools.product(NEW["fitness"][m], NEW["n_eval"], NEW["index"], NEW["var_name"], NEW["fitness_name"]):
        if ix in ("scalar", "int") and N != 1 or fn == "str" and m != 1:
            continue
        ctx.new_trace()
        kw, fit, nev, idx, fname = {}, [[np.nan] * m] * N, [0] * N, [str(k) for k in range(N)], ["f"] if m == 1 else [f"f{j}" for j in range(m)]
        vname = ["x"] if len(names) == 1 else [f"x{k}" for k in range(len(names))]
        if fi == "vec":
            kw["fitness"] = [f if m > 1 else f[0] for f in F]
            fit = F
        elif fi == "one":
            kw["fitness"] = [4.0 + j for j in range(m)]
            fit = [kw["fitness"]] * N
        elif fi is not None:
            kw["fitness"] = fi
            fit = [[fi] * m] * N
        if ne != "default":
            kw["n_eval"] = ne if ne == 3 else [k + 1 for k in range(N)]
            nev = [3] * N if ne == 3 else kw["n_eval"]
        if ix is not None:
            kw["index"] = {"scalar": "a name", "int": 17, "list": [f"i{10 ** k}" for k in range(N)], "arr": np.arange(N) + 9}[ix]
            idx = ["a name"] if ix == "scalar" else ["17"] if ix == "int" else [str(i) for i in kw["index"]]
        if vn is not None:
            vname = list(names)
            kw["var_name"] = vname if vn == "list" else np.array(vname)
        if fn is not None:
            fname = [f"obj{j}" for j in range(m)]
            kw["fitness_name"] = fname[0] if fn == "str" else list(fname)
        s = Solution(list(R[0]) if flat else [list(r) for r in R], n_obj=m, **kw)
        ctx.step(f"Solution({R[0] if flat else R}, n_obj={m}, {kw})")
        L = s.tolist()
        ctx.check(s.shape == ((len(names),) if flat else (N, len(names))) and all(eqv(a, b) for r, q in zip([L] if flat else L, R) for a, b in zip(r, q)), lambda: f"values {L}")
        got = np.asarray(s.fitness, dtype=float)
        ctx.check(got.size == N * m and np.array_equal(got.reshape(N, m), np.array(fit, dtype=float), equal_nan=True), lambda: f"objective values {got.tolist()} instead of {fit}")
        ctx.eq(list(map(int, s.n_eval)), nev, "numbers of evaluations")
        ctx.eq(list(map(str, s.index)), idx, "indices")
        ctx.eq(list(map(str, s.var_name)), vname, "variable names")
        ctx.eq(list(map(str, s.fitness_name)), fname, "names of the objectives")
        ctx.eq((s.N, s.dim, s.n_obj), (N, len(names), m), "N, dim, n_obj")
        if not flat:  # records do not share their attributes
            s[0].n_eval += 5
            s[0].fitness = [-1.0] * m if m > 1 else -1.0
            ctx.eq(list(map(int, s.n_eval)), [nev[0] + 5] + nev[1:], "numbers of evaluations after changing one record")
            ctx.check(np.array_equal(np.asarray(s.fitness, dtype=float).reshape(N, m)[1:], np.array(fit, dtype=float)[1:], equal_nan=True), "changing one record changed another")
        # records over other variables, or with other objectives, cannot be appended
        others = [dict(var_name=[f"other_{v}" for v in vname]), dict(fitness_name=[f"other_{f}" for f in fname])]
        for k in others:
            o = Solution([list(r) for r in R], **{**dict(n_obj=m, var_name=vname, fitness_name=fname), **k})
            try:
                t = s + o
            except Exception:
                continue
            ctx.check(False, lambda: f"records with the names {list(s.var_name)}, {list(s.fitness_name)} and {list(o.var_name)}, {list(o.fitness_name)} were concatenated: {t.tolist()}")
        ctx.state((case["v"], m, n, fi, ne, ix, vn, fn))
        ctx.trace()


INDEP = ("add", "add1", "addperm", "addobj", "mul", "rmul", "dict", "copy", "copycopy", "deepcopy", "pickle")


def run_case(case, ctx):
    if case.get("k") == "new":
        return construct(case, ctx)
    for tail in itertools.product(range(len(OPS)), repeat=case["d"] - 1):
        seq = [case["first"]] + list(tail)
        ctx.new_trace()
        s, t = start(case)
        base = start(case)
        left = []
        if not tail or tail[0] == 0:
            check(ctx, s, t, "creation")
        for k in seq:
            op = OPS[k]
            show = ["get", ROWS[op[1]], COLS[op[2]]] if op[0] == "get" else op
            ctx.step(show)
            r = apply(ctx, op, s, t, case, base)
            if r is None:
                break
            if op[0] in INDEP:
                left.append((s, t, show))
            s, t = r
            check(ctx, s, t, show)
            ctx.state((case["v"], case["m"], t.names, t.rows, t.fit, t.nev, t.idx, t.flat))
        if OPS[seq[-1]][0] in ("setf", "setn", "seti", "seta"):
            for q, w, show in left:
                check(ctx, q, w, f"the operand of {show} after changing its result")
        elif left and s.size:
            s.fitness = np.asarray(s.fitness) + 1.5
            s.n_eval = np.asarray(s.n_eval) + 7
            s.index = ["changed"] * len(s.index)
            s[(0,) * len(s.shape)] = "changed"
            for q, w, show in left:
                check(ctx, q, w, f"the operand of {show} after changing its result")
        if len(tail) <= 1 or tail[-1] == 0:
            check(ctx, base[0], base[1], "the other operand in the end")
        ctx.trace()
    ctx.sample(f"{seq}: {t.rows} {t.fit}")
