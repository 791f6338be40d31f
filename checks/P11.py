"""P11: a seed determines the run; nothing else resets the generator; optimizers do not influence each other."""
import copy
import itertools

import numpy as np

from mc import bo, gp, spaces

LEVEL = "model_checking"
ASSUMPTIONS = ["one process (n_job = 1)", "the only source of randomness is numpy's global generator"]
CHUNK = 1

MIX = [["d", ["x", "", "z"]], ["r", -2.0, 2.0], ["i", 0, 30, 2], ["b"]]
REAL = [["r", -2.0, 2.0], ["r", 0.01, 10.0, {"scale": "log"}]]
SEEDS = [0, 1, 7, 123456]
CFG = {
    "bo-mix": dict(cls="BO", sp=MIX, model="rf0"), "bo-real": dict(cls="BO", sp=REAL, model="rf0"), "bo-smooth": dict(cls="BO", sp=REAL, model="smooth"), "bo-gp": dict(cls="BO", sp=REAL, model="gp"),
    "bo-ucb": dict(cls="BO", sp=MIX, model="peak", kw={"acquisition_fun": "UCB", "acquisition_par": {"alpha": 0.3}}), "bo-mgfi": dict(cls="BO", sp=REAL, model="peak", kw={"acquisition_fun": "MGFI", "acquisition_par": {"t": 1.5}}),
    "par": dict(cls="ParallelBO", sp=MIX, model="rf0", n=3), "par-ucb": dict(cls="ParallelBO", sp=REAL, model="peak", n=2, kw={"acquisition_fun": "UCB", "acquisition_par": {"alpha": 0.2}}), "par-def": dict(cls="ParallelBO", sp=REAL, model="peak", n=2),
    "noisy": dict(cls="NoisyBO", sp=MIX, model="rf0", n=2), "anneal": dict(cls="AnnealingBO", sp=REAL, model="peak", n=2, kw={"max_FEs": 20, "acquisition_par": {"t": 1.5}}), "multi": dict(cls="MultiAcquisitionBO", sp=MIX, model="peak", n=2), "self": dict(cls="SelfAdaptiveBO", sp=REAL, model="peak", n=2, kw={"acquisition_par": {"t": 1.5}}), "par-empty": dict(cls="ParallelBO", sp=REAL, model="peak", n=2, kw={"acquisition_fun": "UCB", "acquisition_par": {}}),
    "mobo": dict(cls="MOBO", sp=MIX, model="peak", kw={"n_obj": 2, "minimize": [True, True]}), "cond": dict(cls="ConditionalBO"), "con": dict(cls="BO", sp=REAL, model="peak", con=True),
}


def BOUNDS(tier):
    return (f"{len(CFG)} optimizer configurations: seeds {SEEDS} x {2 if tier == 'quick' else 4} states of the generator before the run x runs of {3 if tier == 'quick' else 5} rounds; every interleaving of the operations of every pair of configurations (create, ask, tell, ask), with own and with shared search spaces and parameter dictionaries; "
            "every unseeded operation (construction, slicing, algebra, sampling, asking, telling, inner optimizers) from two generator states")


def cases(tier):
    out = []
    for c in CFG:
        for s in SEEDS:
            out.append({"k": "seed", "cfg": c, "seed": s, "pre": [0, 3] if tier == "quick" else [0, 1, 3, 50], "rounds": 3 if tier == "quick" else 5})
        out.append({"k": "noreset", "cfg": c})
    for a, b in itertools.combinations_with_replacement(sorted(CFG), 2):
        if tier == "quick" and a != b and CFG[a]["cls"] != CFG[b]["cls"] and (len(a) + len(b)) % 3:
            continue
        out.append({"k": "pair", "a": a, "b": b, "all": tier != "quick" or a == b})
    out += [{"k": "space", "seed": s} for s in SEEDS]
    out += [{"k": "spaceops"}, {"k": "inner"}]
    out += [{"k": "fmin", "seed": s, "n": n} for s in SEEDS for n in (1, 2)]
    return out


def ineq(x):
    return x[0] - 1.5


def model(kind, space, c):
    if kind == "rf0":  # draws from the global generator
        from bayes_optim import RandomForest

        return RandomForest(levels=space.levels, n_estimators=4)
    if kind == "gp":
        return gp.gp(space, random_state=None)
    return kind


def mk(name, space=None, shared=None, **kw):
    c = CFG[name]
    if c["cls"] == "ConditionalBO":
        from checks import P16

        P16.small_forests()
        return bo.cls_of("ConditionalBO")(search_space=space if space is not None else P16.mk(P16.SPC["two"]), n_point=2, acquisition_optimization=dict(bo.AQ), **kw)
    space = spaces.build(c["sp"]) if space is None else space
    args = copy.deepcopy(c.get("kw", {}))
    if shared is not None:
        args.update(shared)
    if c.get("con"):
        args["ineq_fun"] = ineq
    m = model(c["model"], space, c)
    return bo.make(c["cls"], c["sp"], model=m, space=space, n_point=c.get("n", 1), eval_type="dict" if c["cls"] != "BO" else "list", DoE_size=4, **args, **kw)


def values(name, X):
    f = [bo.fval(tuple(x.values()) if isinstance(x, dict) else x) for x in X]
    if CFG[name]["cls"] == "MOBO":
        return [[v, 10 - v + (k % 2)] for k, v in enumerate(f)]
    return f


def norm(X):
    return [bo.key([x[k] for k in sorted(x)] if isinstance(x, dict) else x) for x in X]


def run_case(case, ctx):
    from checks import P09

    with P09.short_chains(True):
        _run_case(case, ctx)


def _run_case(case, ctx):
    k = case["k"]
    if k == "seed":
        ref = None
        first = {}
        for pre in case["pre"]:
            np.random.seed(99 + pre)
            np.random.rand(pre)
            ctx.new_trace()
            opt = mk(case["cfg"], random_seed=case["seed"])
            log = []
            for r in range(case["rounds"]):
                X = opt.ask()
                ctx.step(f"ask {X}")
                log.append(norm(X))
                opt.tell(X, values(case["cfg"], X))
                ctx.state((case["cfg"], case["seed"], r, str(log)))
            if ref is None:
                ref = log
            else:
                ctx.eq(log, ref, f"candidates of a run with the seed {case['seed']} differ from those of an earlier run with the same seed")
            ctx.trace()
        # another seed leads elsewhere
        np.random.seed(99)
        X = mk(case["cfg"], random_seed=case["seed"] + 1).ask()
        ctx.check(norm(X) != ref[0], "two different seeds give the same initial design")
        # the seed is not re-applied later on
        np.random.seed(99)
        opt = mk(case["cfg"], random_seed=case["seed"])
        if CFG[case["cfg"]]["cls"] != "ConditionalBO":
            A, B = opt.ask(), opt.ask()
            ctx.check(norm(A) != norm(B), "asking twice for an initial design gives the same points: the seed is applied again")
        ctx.sample(ref)
    elif k == "noreset":
        ends = []
        for s in (11, 12):
            np.random.seed(s)
            st = [np.random.get_state()[1].tobytes()]
            opt = mk(case["cfg"])
            st.append(str(np.random.get_state()[1:3]))
            for r in range(2):
                X = opt.ask()
                st.append((norm(X), np.random.get_state()[1].tobytes()))
                opt.tell(X, values(case["cfg"], X))
                st.append(np.random.get_state()[1].tobytes())
                ctx.step(f"round {r} from generator state {s}")
            ends.append(st)
        for i, (a, b) in enumerate(zip(*ends)):
            ctx.check(a != b, f"operation {i} (creation, ask, tell, ask, tell) of an optimizer without a seed brings the generator into a fixed state")
        ctx.state((case["cfg"], "noreset"))
        ctx.trace(2)
    elif k == "space":
        ref = None
        for pre in (0, 1, 5):
            for how in ("uniform", "LHS"):
                pass
            np.random.seed(pre)
            out = []
            from bayes_optim.search_space import SearchSpace

            sp = SearchSpace([spaces.build_var(s, f"v{i}") for i, s in enumerate(MIX)], random_seed=case["seed"])
            out.append(norm(sp.sample(3).tolist()))
            out.append(norm(sp.sample(3).tolist()))
            sub = sp[[0, 1]]
            out.append(norm(sub.sample(3).tolist()))
            out.append(norm(sp[1:].sample(3).tolist()))
            out.append(norm(sp.filter(["v1"]).sample(3).tolist()))
            out.append(norm(sp.sample(3).tolist()))
            ctx.step(out[0])
            ctx.check(out[0] != out[1] and out[5] not in out[:2], "sampling again from a seeded space (or after slicing it) repeats the earlier sample")
            real = lambda S, j: [r[j] for r in S]
            ctx.check(real(out[2], 1) != real(out[0], 1) and real(out[3], 0) != real(out[0], 1) and real(out[4], 0) != real(out[0], 1), "slicing a seeded space resets the generator")
            if ref is None:
                ref = out
            ctx.eq(out, ref, f"samples of a space with the seed {case['seed']} differ")
            ctx.trace()
        ctx.state(("space", case["seed"]))
    elif k == "spaceops":
        from bayes_optim.search_space import SearchSpace

        def mkA():
            return spaces.build(MIX)

        ops = {
            "create": lambda s: mkA(), "slice": lambda s: s[1:], "names": lambda s: s[["r_1", "b_3"]], "filter": lambda s: s.filter(["r_1"], invert=True), "add": lambda s: s + spaces.build(REAL, ["p", "q"]), "mul": lambda s: s * 2,
            "sub": lambda s: s - spaces.build(REAL[:1], ["r_1"]), "concat": lambda s: SearchSpace.concat(s, spaces.build(REAL, ["p", "q"])), "sample": lambda s: s.sample(2), "lhs": lambda s: s.sample(3, method="LHS"), "sobol": lambda s: s.sample(3, method="sobol"),
            "constrained": lambda s: s.sample(2, g=lambda x: x[1] - 1), "dict": lambda s: SearchSpace.from_dict(s.to_dict()), "remove": lambda s: s.remove("b_3"), "update": lambda s: s.update(spaces.build(REAL, ["p", "q"])), "setitem": lambda s: s.__setitem__(0, spaces.build_var(["b"], "nb")),
        }
        for a, b in itertools.product(ops, repeat=2):
            res = []
            for seed in (21, 22):
                s = mkA()
                np.random.seed(seed)
                ops[a](s)
                s2 = mkA()
                ops[b](s2)
                res.append(np.random.rand(2).tolist())
            ctx.step(f"{a}; {b}")
            ctx.check(res[0] != res[1], f"'{a}' and then '{b}' on a space without a seed brings the generator into a fixed state")
            ctx.state((a, b))
            ctx.trace()
    elif k == "inner":
        from bayes_optim.acquisition.optim import MIES, OnePlusOne_CMA, OnePlusOne_Cholesky_CMA

        f = lambda x: float(np.sum([float(v) ** 2 for v in np.ravel(x) if not isinstance(v, str)]))
        for nm, go in {
            "cma": lambda: OnePlusOne_CMA(search_space=spaces.build(REAL[:1]), obj_fun=f, max_FEs=10).run(), "chol": lambda: OnePlusOne_Cholesky_CMA(search_space=spaces.build(REAL[:1]), obj_fun=f, max_FEs=10).run(),
            "mies": lambda: MIES(search_space=spaces.build(MIX), obj_func=f, max_eval=20).optimize(),
        }.items():
            res = []
            for seed in (31, 32):
                np.random.seed(seed)
                go()
                res.append(np.random.rand(2).tolist())
            ctx.step(nm)
            ctx.check(res[0] != res[1], f"{nm}: an inner optimizer without a seed brings the generator into a fixed state")
            ctx.state(nm)
            ctx.trace()
    elif k == "fmin":
        import bayes_optim

        ref = None
        for pre in (1, 2):
            np.random.seed(pre)
            xs = []

            def f(x):
                xs.append([float(v) for v in x])
                return float(sum((v - 0.3) ** 2 for v in x))

            r = bayes_optim.fmin(f, [-1.0, 0.0], [2.0, 1.0], x0=4, max_FEs=7, n_point=case["n"], seed=case["seed"], acquisition_optimization=dict(bo.AQ))
            ctx.step(xs)
            if ref is None:
                ref = xs
            ctx.eq(xs, ref, f"fmin with the seed {case['seed']} evaluates other points than before")
            ctx.trace()
        ctx.state(("fmin", case["seed"], case["n"], str(xs)))
    else:  # two optimizers side by side
        a, b = case["a"], case["b"]
        same_space = CFG[a].get("sp") is not None and CFG[a].get("sp") is CFG[b].get("sp")
        same_par = CFG[a].get("kw") is not None and CFG[a].get("kw") == CFG[b].get("kw") and CFG[a]["cls"] == CFG[b]["cls"]
        modes = ["own"] + (["shared"] if same_space else [])
        OPS = ["create", "ask", "tell", "ask", "tell", "ask"] if case["all"] and ctx.tier != "quick" else ["create", "ask", "tell", "ask"]
        for mode in modes:
            aq = dict(bo.AQ)

            def build(nm, env):
                sp = env.setdefault("sp", spaces.build(CFG[nm]["sp"])) if mode == "shared" else None
                sh = None
                if mode == "shared":
                    sh = {"acquisition_optimization": env.setdefault("aq", aq)}
                    if same_par and "acquisition_par" in CFG[nm]["kw"]:
                        sh["acquisition_par"] = env.setdefault("par", copy.deepcopy(CFG[nm]["kw"]["acquisition_par"]))
                return mk(nm, space=sp, shared=sh)

            def perform(nm, state, i, env, who):
                np.random.seed(1000 + 10 * i + who)
                op = OPS[i]
                if op == "create":
                    state["o"] = build(nm, env)
                elif op == "ask":
                    state["X"] = state["o"].ask()
                    state["log"].append(norm(state["X"]))
                else:
                    state["o"].tell(copy.deepcopy(state["X"]), values(nm, state["X"]))
                    d = state["o"].data
                    state["log"].append((norm(d.tolist()), np.ravel(d.fitness).tolist(), state["o"].eval_count))

            solo = []
            for who, nm in enumerate((a, b)):
                st, env = {"log": []}, {}
                for i in range(len(OPS)):
                    perform(nm, st, i, env, who)
                solo.append(st["log"])
            n = len(OPS)
            scheds = set()
            for pos in itertools.combinations(range(2 * n), n):
                sw = sum((i in pos) != ((i + 1) in pos) for i in range(2 * n - 1))
                if sw <= 3 or pos == tuple(range(0, 2 * n, 2)) or ctx.tier != "quick" and sw <= 4:
                    scheds.add(pos)
            if not case["all"]:
                scheds = {tuple(range(0, 2 * n, 2)), tuple(range(n)), (0, 1, 2, 2 * n - 1), (0, n + 1, n + 2, n + 3), (0, 1, 3, 5)}
            for pos in sorted(scheds):
                ctx.new_trace()
                st, env, nxt = [{"log": []}, {"log": []}], {}, [0, 0]
                for t in range(2 * n):
                    who = 0 if t in pos else 1
                    perform((a, b)[who], st[who], nxt[who], env, who)
                    ctx.step(f"{'AB'[who]}.{OPS[nxt[who]]}")
                    nxt[who] += 1
                for who in (0, 1):
                    ctx.check(st[who]["log"] == solo[who], lambda: f"optimizer {'AB'[who]} ({(a, b)[who]}) behaves differently next to another one ({mode} space): {st[who]['log']} instead of {solo[who]}")
                if "aq" in env:
                    ctx.eq(env["aq"], dict(bo.AQ), "the caller's dictionary of search options was changed")
                if "par" in env:
                    ctx.eq(env["par"], CFG[a]["kw"]["acquisition_par"], "the caller's dictionary of acquisition parameters was changed")
                ctx.state((a, b, mode, pos))
                ctx.trace()
        ctx.sample(f"{len(scheds)} interleavings")
