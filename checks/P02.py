"""P02: variables fixed by the caller keep their value; the others stay free and admissible."""
import itertools

from checks import P16
from mc import bo, rng, spaces

LEVEL = "model_checking"
ASSUMPTIONS = ["at least one variable is left free", "random draws come from numpy's global generator"]
CHUNK = 2

SP = {
    "mix": ([["d", ["x", "", "z"]], ["r", -2.0, 2.0, {"precision": 1}], ["i", 0, 8, 2], ["b"]],
            [["", "x"], [0.0, 2.0], [0, 8], [False, True]]),
    "cat": ([["b"], ["s", ["u", "v"]], ["o", [1, 2, 4]]], [[False, True], [("u",), ("u", "v")], [1, 4]]),
    "real": ([["r", -5.0, 5.0], ["r", 0.0, 1.0], ["r", 0.01, 100.0, {"scale": "log"}]], [[0.0, 5.0], [1.0, 0.25], [0.01, 1.0]]),
    "int": ([["i", -3, 3], ["i", 0, 9, 3], ["d", [0, 1, 2]]], [[0, -3], [0, 9], [0, 2]]),
}


def BOUNDS(tier):
    return f"{len(P16.SPC)} conditional spaces with one or two variables fixed (each to two values, selectors to every value) before, during and after the initial pass; " + "4 spaces x every proper non-empty subset of fixed variables x every combination of 2 values each (falsy ones included) in the order of the space and reversed x 4 optimizer classes x list/dict x both phases (3 more classes on one space); " + ("0" if tier == "quick" else "<=1") + " deviating draw sites (1 on all subsets of size 1)"


def cond_values(spec):
    v = {"r": lambda: [spec[1], (spec[1] + spec[2]) / 2]}.get(spec[0], lambda: [spaces.values(spec)[0], spaces.values(spec)[-1]])()
    return v if spec[0] != "b" else [False, True]


def cases(tier):
    out = []
    for s, its in P16.SPC.items():
        subs = P16.subspaces(its)
        by = {it[0]: it[1] for it in its}
        done = []
        for key, free in subs:
            for n in (1, 2):
                for sub in itertools.combinations(list(key) + free, n):
                    for ch in itertools.product(*[(None,) if m in key else (0, 1) for m in sub]):
                        fixed = [[m, key[m] if k is None else cond_values(by[m])[k]] for m, k in zip(sub, ch)]
                        # some variable is left free in each subspace that allows these values
                        ok = [f for q, f in subs if all((m in q and spaces.same(q[m], v)) or m in f for m, v in fixed)]
                        if fixed not in done and all(set(f) - set(sub) for f in ok):
                            done.append(fixed)
                            if tier != "quick" or n == 1 or len(done) % 3 == 0:
                                out.append({"sp": s, "cls": "ConditionalBO", "fixed": fixed, "first": len(done) % 2 == 0})
    for s, (specs, vals) in SP.items():
        nm = spaces.names(specs)
        for r in range(1, len(specs)):
            for sub in itertools.combinations(range(len(specs)), r):
                for ch in itertools.product(*[(0, 1) for _ in sub]):
                    fixed = [[nm[i], i, k] for i, k in zip(sub, ch)]
                    for cls, n in (("BO", 1), ("ParallelBO", 2), ("NoisyBO", 2), ("MOBO", 1)) + ((("AnnealingBO", 2), ("MultiAcquisitionBO", 2), ("SelfAdaptiveBO", 2)) if s == "int" or tier != "quick" else ()):
                        if cls == "MOBO" and s == "real":
                            continue
                        for ev in ("list", "dict"):
                            for model in ["peak"] + (["smooth"] if s == "real" and cls == "BO" else []):
                                dev = 1 if (tier != "quick" or (r == 1 and cls == "BO" and ev == "dict")) else 0
                                out.append({"sp": s, "fixed": fixed, "cls": cls, "n": n, "ev": ev, "model": model, "bound": dev})
    return out


def run_cond(c, ctx):
    """conditional spaces: the candidate lies in a subspace in which the fixed variables are active"""
    from bayes_optim.extension import ConditionalBO
    from bayes_optim.utils.exception import AskEmptyError

    P16.small_forests()
    its = P16.SPC[c["sp"]]
    subs = P16.subspaces(its)
    fixed = dict(map(tuple, c["fixed"]))
    ok = [k for k, (q, f) in enumerate(subs) if all((m in q and spaces.same(q[m], v)) or m in f for m, v in fixed.items())]
    with rng.controlled(rng.Env(stream=3)):
        opt = ConditionalBO(search_space=P16.mk(its), minimize=True, n_point=2, acquisition_optimization=dict(bo.AQ))
        f = itertools.count()
        seen, left = [], set(range(len(subs)))
        reqs = [fixed, None] if c["first"] else [None, fixed]
        for fx, n in [(reqs[0], 1), (reqs[1], 2), (None, len(subs)), (fixed, 2), (None, 2), (fixed, 1)]:
            given = dict(fixed)
            try:
                X = opt.ask(n) if fx is None else opt.ask(n, fixed=given)
            except AskEmptyError:
                ctx.step(f"ask({n}, fixed={fx}) -> exhausted")
                # legitimate only if some admissible subspace is finite and small
                ctx.check(any(all(its_[1][0] != "r" for its_ in its if its_[0] in subs[k][1] and its_[0] not in fixed) for k in (ok if fx else range(len(subs)))), "no candidate was found although every subspace has infinitely many points left")
                continue
            ctx.step(f"ask({n}, fixed={fx}) -> {X}")
            ctx.eq(len(X), n, "number of candidates")
            ctx.eq(given, fixed, "the caller's dictionary of fixed values was changed")
            hit = [P16.consistent(ctx, x, its, subs) for x in X]
            if fx is not None:
                for x in X:
                    for m, v in fixed.items():
                        ctx.check(spaces.same(x[m], v), lambda: f"variable {m} is fixed to {v!r} but the candidate is {x!r}")
            # every admissible subspace is proposed once before any of them is repeated
            free = left & set(ok) if fx is not None else left
            new = [h for h in hit if h in left]
            ctx.eq(len(set(new)), min(n, len(free)), f"subspaces {sorted(free)} were not proposed yet, this request proposes {hit}: number of new ones")
            left -= set(hit)
            opt.tell(X, [float((3 * next(f)) % 7) for _ in X])
            ctx.state((c["sp"], str(c["fixed"]), tuple(hit)))
        ctx.eq(opt.eval_count, len(opt.data), "number of evaluations")
    ctx.trace()


def run_case(c, ctx):
    if c["cls"] == "ConditionalBO":
        return run_cond(c, ctx)
    from bayes_optim.utils.exception import AskEmptyError

    specs, vals = SP[c["sp"]]
    nm = spaces.names(specs)
    cls, ev = c["cls"], c["ev"]
    # the order in which the caller lists the fixed variables is not that of the space
    fixed = {n: vals[i][k] for n, i, k in (c["fixed"] if (cls in ("BO", "MOBO")) == (ev == "list") else c["fixed"][::-1])}
    corner = [(s[2] if s[0] == "r" else spaces.values(s)[-1]) for s in specs]
    free = [j for j, n in enumerate(nm) if n not in fixed]

    def run(env):
        kw = {"n_obj": 2} if cls == "MOBO" else {"max_FEs": 30} if cls == "AnnealingBO" else {}
        opt = bo.make(cls, specs, model=c["model"], z=corner, eval_type=ev, n_point=c["n"], DoE_size=2, **kw)
        seen = []
        given = dict(fixed)
        for phase, (fx, n) in enumerate(((fixed, 2), (fixed, c["n"]), (None, 1), (fixed, 1), (None, 1))):
            try:
                X = opt.ask(n, fixed=given if fx is not None else None)
            except AskEmptyError:
                # legitimate only if every point of the requested slice has been proposed already
                sl = [[fx[n]] if fx and n in fx else spaces.values(s) for n, s in zip(nm, specs)]
                rest = None if any(v is None for v in sl) else [p for p in itertools.product(*sl) if list(p) not in seen]
                if rest == [] or (rest is None and env.plan):
                    continue
                raise
            ctx.step(f"ask({n}, fixed={fx}) -> {X}")
            ctx.eq(given, fixed, "the caller's dictionary of fixed values was changed")
            rows = bo.validate(X, specs, nm, ev, ctx, fx)
            for r in rows:
                ctx.state((c["sp"], bo.key(r)))
            if fx is None and phase == 2 and not env.plan and cls == "BO" and c["model"] == "peak":
                ctx.check(len(rows) == n, "a request without fixed variables must be served")
            ctx.eq(list(opt.search_space.var_name), nm, "the optimizer's search space lost variables")
            y = [bo.fval(r) + 0.31 * (phase + j) for j, r in enumerate(rows)]
            opt.tell(X, [(v, -v) for v in y] if cls == "MOBO" else y)
            ctx.step("tell")
            seen += [r for r in rows if r not in seen]
        ctx.trace()

    rng.explore(run, bound=c["bound"], by_site=True, ctx=ctx)
    # the variables that are not fixed are not pinned: different random answers give different values
    if c["bound"] == 0:
        got = [set() for _ in free]
        for stream in range(12):
            env = rng.Env(stream=stream)
            with rng.controlled(env):
                kw = {"n_obj": 2} if cls == "MOBO" else {"max_FEs": 30} if cls == "AnnealingBO" else {}
                opt = bo.make(cls, specs, model=c["model"], z=corner, eval_type=ev, n_point=c["n"], DoE_size=2, **kw)
                X = bo.validate(opt.ask(1, fixed=dict(fixed)), specs, nm, ev, ctx, fixed)
            ctx.step()
            for g, j in zip(got, free):
                g.add(bo.spaces_key(X[0][j]))
        ctx.check(all(len(g) > 1 for g in got), lambda: f"free variables do not vary: {[nm[j] for j in free]} -> {got}")
    ctx.sample(f"fixed={fixed}")
