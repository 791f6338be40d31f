"""P03: no point is proposed twice; a finite space is enumerated completely and then reported exhausted."""
import itertools

from mc import bo, rng, spaces

LEVEL = "model_checking"
ASSUMPTIONS = ["evaluations succeed (finite objective values)", "finite spaces of at most 1000 points"]
CHUNK = 4

SP = {
    "b2": [["b"], ["b"]],
    "i4": [["i", 0, 3]],
    "i3s": [["i", -3, 5, 4]],
    "d3": [["d", ["a", "b", "c"]]],
    "i2d2": [["i", 0, 1], ["d", ["u", "v"]]],
    "s2b": [["s", ["p", "q"]], ["b"]],
    "o3b": [["o", [10, 20, 30]], ["b"]],
    "i3i2": [["i", 1, 3], ["i", 0, 1]],
    "i4f": [["i", 100000, 100003]],
    "d3f": [["d", [1e-9, 2e-9, 1 / 3]]],
    "o2f": [["o", [123456789, 123456790]], ["i", -1000000, -999999]],
    "b3": [["b"], ["d", ["k", "l"]], ["i", 0, 1]],
}
BIG = {
    "i4i5": [["i", 0, 3], ["i", -2, 2]],
    "d3i4b": [["d", ["a", "", "c"]], ["i", 0, 6, 2], ["b"]],
    "i30": [["i", 0, 29]],
}
HUGE = {
    "i13i11": [["i", 0, 12], ["i", -5, 5]],
    "d5i21b": [["d", ["a", "b", "c", "d", "e"]], ["i", 0, 60, 3], ["b"]],
    "i32i31": [["i", 0, 31], ["o", list(range(5, 36))]],
}


# spaces on which one variable is fixed
FIX = ["b2", "i2d2", "s2b", "o3b", "i3i2", "o2f", "b3"]


def BOUNDS(tier):
    return (f"3 finite spaces of 143-992 points with all but one or two points evaluated; requests with one variable fixed to each of its values on {len(FIX)} spaces x every subset of the slice evaluated x every preferred point, run on until the slice is exhausted; 3 finite spaces of 20-30 points with all points evaluated in one or many iterations except every one or every two neighbouring ones x preferred points; {len(SP)} finite spaces (3..8 points): every subset of evaluated points x every point preferred by the surrogate x n=1..3 x min/max; "
            "runs to exhaustion for every preferred point with " + ("0/1" if tier == "quick" else "<=2") + " deviating draw sites; real grids with duplicate-preferring surrogates")


def cases(tier):
    out = []
    for s, specs in SP.items():
        pts = spaces.points(specs)
        for k in range(len(pts)):
            for mask in range(2 ** len(pts)):
                if tier == "quick" and len(pts) > 6 and (mask + k) % 4:
                    continue
                out.append({"kind": "state", "sp": s, "z": k, "mask": mask})
            for cls, n in (("BO", 1), ("ParallelBO", 2), ("ParallelBO", 3)):
                out.append({"kind": "run", "sp": s, "z": k, "cls": cls, "n": n, "bound": 1 if (tier != "quick" or k == 0) else 0})
    for s in FIX:
        specs = SP[s]
        pts = spaces.points(specs)
        for v in range(len(specs)):
            for val in {repr(p[v]): i for i, p in reversed(list(enumerate(pts)))}.values():
                free = [i for i, p in enumerate(pts) if repr(p[v]) == repr(pts[val][v])]
                for mask in range(2 ** len(free)):
                    for z in range(len(pts)):
                        if tier == "quick" and z not in free and (z + mask) % 3:
                            continue
                        out.append({"kind": "slice", "sp": s, "var": v, "val": val, "mask": mask, "z": z})
    for s, specs in BIG.items():
        n = len(spaces.points(specs))
        for j in range(n):
            for z in range(n) if tier != "quick" else {0, 1, j, n - 1, (7 * j + 3) % n, (j + n // 2) % n}:
                out.append({"kind": "big", "sp": s, "miss": j, "z": z})
    for s, specs in HUGE.items():
        n = len(spaces.points(specs))
        for j in (0, 1, n // 3, n // 2, n - 2, n - 1) if tier == "quick" else range(0, n, 7):
            for z in (0, 2, n - 3):
                out.append({"kind": "big", "sp": s, "miss": j, "z": z})
    for ev in ("list", "dict"):
        for k in range(4):
            out.append({"kind": "grid", "ev": ev, "z": k, "bound": 1})
    return out


def run_case(c, ctx):
    {"slice": _slice, "state": _state, "big": _big, "run": _run, "grid": _grid}[c["kind"]](c, ctx)


def _ask(opt, n, ctx, unseen, specs, nm, ev, fixed=None):
    from bayes_optim.utils.exception import AskEmptyError

    try:
        X = opt.ask(n) if fixed is None else opt.ask(n, fixed=dict(fixed))
    except AskEmptyError:
        ctx.step(f"ask({n}) -> exhausted")
        ctx.check(not unseen, lambda: f"the search space was reported exhausted although {unseen} was never evaluated")
        return None, None
    ctx.step(f"ask({n}) -> {X}")
    rows = bo.validate(X, specs, nm, ev, ctx, fixed)
    keys = [bo.key(r) for r in rows]
    free = {bo.key(u) for u in unseen}
    ctx.check(len(set(keys)) == len(keys), lambda: f"the same point is proposed twice in one batch: {rows}")
    ctx.check(all(k in free for k in keys), lambda: f"an evaluated point is proposed again: {rows}, not evaluated so far: {unseen}")
    ctx.eq(len(rows), min(n, len(unseen)), f"number of proposals for a request of {n} with {len(unseen)} points left")
    return X, rows


def _state(c, ctx):
    specs = SP[c["sp"]]
    nm = spaces.names(specs)
    pts = spaces.points(specs)
    done = [p for i, p in enumerate(pts) if c["mask"] >> i & 1]
    unseen = [p for i, p in enumerate(pts) if not c["mask"] >> i & 1]
    variants = [("BO", 1, "list", True), ("ParallelBO", 2, "dict", True), ("ParallelBO", 3, "list", False)]
    if ctx.tier == "quick":
        variants = [variants[(c["mask"] + c["z"]) % 3], variants[(c["mask"] + c["z"] + 1) % 3]]
    for cls, n, ev, minimize in variants:
        ctx.new_trace()
        env = rng.Env(stream=7)
        with rng.controlled(env):
            opt = bo.make(cls, specs, z=pts[c["z"]], minimize=minimize, eval_type=ev, n_point=max(n, 1), DoE_size=2)
            if done:
                as_in = [dict(zip(nm, p)) if ev == "dict" else list(p) for p in done]
                opt.tell(as_in, [float(j) if j % 2 else -1.5 * j for j in range(len(done))])
                ctx.step(f"tell {as_in}")
            _ask(opt, n, ctx, unseen, specs, nm, ev)
        ctx.state((c["sp"], c["mask"], c["z"], cls, n))
        ctx.trace()
    ctx.sample(f"evaluated={done} preferred={pts[c['z']]}")


def _slice(c, ctx):
    """one variable is fixed: the points of that slice are proposed once each, then the slice is exhausted and the rest is not"""
    specs = SP[c["sp"]]
    nm = spaces.names(specs)
    pts = spaces.points(specs)
    v = c["var"]
    inside = [p for p in pts if repr(p[v]) == repr(pts[c["val"]][v])]
    outside = [p for p in pts if p not in inside]
    fixed = {nm[v]: pts[c["val"]][v]}
    done = [p for i, p in enumerate(inside) if c["mask"] >> i & 1]
    unseen = [p for i, p in enumerate(inside) if not c["mask"] >> i & 1]
    done = done + outside[: (c["mask"] + c["z"]) % 2 + (not done)]
    cls, n, ev = [("BO", 1, "list"), ("ParallelBO", 2, "dict"), ("ParallelBO", 3, "list"), ("BO", 1, "dict")][(c["mask"] + c["z"] + v) % 4]
    with rng.controlled(rng.Env(stream=7)):
        opt = bo.make(cls, specs, z=pts[c["z"]], eval_type=ev, n_point=max(n, 1), DoE_size=2)
        as_in = [dict(zip(nm, p)) if ev == "dict" else list(p) for p in done]
        opt.tell(as_in, [float(j) if j % 2 else -1.5 * j for j in range(len(done))])
        ctx.step(f"tell {as_in}, fixed {fixed}")
        rest = [p for p in pts if p not in done]
        while True:
            X, rows = _ask(opt, n, ctx, unseen, specs, nm, ev, fixed)
            if X is None:
                break
            opt.tell(X, [bo.fval(r) for r in rows])
            for r in rows:
                unseen = [u for u in unseen if bo.key(u) != bo.key(r)]
                rest = [u for u in rest if bo.key(u) != bo.key(r)]
            ctx.state((c["sp"], v, c["val"], c["mask"], tuple(sorted(map(repr, unseen)))))
            ctx.check(len(ctx.trail) < 100, "the run does not terminate")
        _ask(opt, n, ctx, rest, specs, nm, ev)
    ctx.trace()


def _big(c, ctx):
    """long histories: nothing that was ever evaluated is proposed again"""
    specs = {**BIG, **HUGE}[c["sp"]]
    nm = spaces.names(specs)
    pts = spaces.points(specs)
    j, z = c["miss"], c["z"]
    few = [6, 1] if c["sp"] in BIG else [len(pts), 70]
    for var, (cls, ev, batch, two) in enumerate([("BO", "list", len(pts), False), ("ParallelBO", "dict", few[0], True), ("BO", "dict", few[1], False)]):
        if ctx.tier == "quick" and var != (j + z) % 3:
            continue
        ctx.new_trace()
        unseen = [pts[j]] + ([pts[(j + 1) % len(pts)]] if two else [])
        done = [p for p in pts if p not in unseen]
        if (j + z) % 2:
            done.reverse()
        with rng.controlled(rng.Env(stream=5)):
            opt = bo.make(cls, specs, z=pts[z], eval_type=ev, n_point=3, DoE_size=2)
            for k in range(0, len(done), batch):
                b = done[k : k + batch]
                opt.tell([dict(zip(nm, p)) if ev == "dict" else list(p) for p in b], [float((5 * (k + i)) % 17) for i in range(len(b))])
                ctx.step(f"tell {b}")
            X, rows = _ask(opt, 1 if cls == "BO" else 3, ctx, unseen, specs, nm, ev)
            if X is not None:
                opt.tell(X, [bo.fval(r) for r in rows])
                _ask(opt, 1 if cls == "BO" else 3, ctx, [], specs, nm, ev)
        ctx.state((c["sp"], j, z, var))
        ctx.trace()


def _run(c, ctx):
    specs = SP[c["sp"]]
    nm = spaces.names(specs)
    pts = spaces.points(specs)
    ev = "dict" if c["z"] % 2 else "list"

    def run(env):
        opt = bo.make(c["cls"], specs, z=pts[c["z"]], eval_type=ev, n_point=c["n"], DoE_size=2)
        unseen = [list(p) for p in pts]
        while True:
            X, rows = _ask(opt, c["n"], ctx, unseen, specs, nm, ev)
            if X is None:
                break
            opt.tell(X, [bo.fval(r) for r in rows])
            ctx.step("tell")
            for r in rows:
                unseen = [u for u in unseen if bo.key(u) != bo.key(r)]
            ctx.state((c["sp"], tuple(sorted(map(repr, unseen)))))
            ctx.check(len(ctx.trail) < 200, "the run does not terminate")
        ctx.check(not unseen, "exhaustion is reported early")
        # it stays exhausted
        _ask(opt, 1, ctx, [], specs, nm, ev)
        ctx.trace()

    rng.explore(run, bound=c["bound"], by_site=True, ctx=ctx)


def _grid(c, ctx):
    """a rounded real variable next to a Boolean one: proposals never coincide with evaluated points"""
    from bayes_optim.utils.exception import AskEmptyError

    specs = [["r", 0.0, 0.5, {"precision": 1}], ["b"], ["r", 1.0, 2.0, {"precision": 0}]]
    nm = spaces.names(specs)
    done = [[0.1, True, 1.0], [0.3, False, 2.0], [0.5, True, 2.0], [0.0, False, 1.0]]

    def run(env):
        opt = bo.make("ParallelBO", specs, z=done[c["z"]], eval_type=c["ev"], n_point=2, DoE_size=2)
        opt.tell([dict(zip(nm, p)) if c["ev"] == "dict" else list(p) for p in done], [3.0, 1.0, 2.0, 5.0])
        seen = {bo.key(p) for p in done}
        for _ in range(2):
            try:
                X = opt.ask(2)
            except AskEmptyError:
                break
            rows = bo.validate(X, specs, nm, c["ev"], ctx)
            ctx.step(f"ask -> {X}")
            for r in rows:
                ctx.check(bo.key(r) not in seen, lambda: f"{r} is proposed again")
                seen.add(bo.key(r))
                ctx.state(bo.key(r))
            opt.tell(X, [bo.fval(r) for r in rows])
        ctx.trace()

    rng.explore(run, bound=c["bound"], by_site=True, ctx=ctx)
