"""P15: the subspaces of a conditional space are exactly the sets of variables that are active together."""
import itertools

import numpy as np

from mc import spaces

LEVEL = "model_checking"
ASSUMPTIONS = ["a condition compares one variable with one value", "selector values that no condition mentions have no subspace of their own"]
CHUNK = 64

KINDS = {
    "d": (["d", ["a", "b", "c c"]], ["'a'", "'b'", "'c c'"], ["a", "b", "c c"]),
    "i": (["i", -2, 3], ["-2", "1", "0"], [-2, 1, 0]),
    "b": (["b"], ["True", "False"], [True, False]),
    "o": (["o", [0, 2.5, 7]], ["0", "2.5", "7"], [0, 2.5, 7]),
    "q": (["d", ["it", ""]], ["'it'", "''"], ["it", ""]),
}


def BOUNDS(tier):
    return f"all forests of up to {5 if tier == 'quick' else 6} variables in which each variable has no condition or one on one of two (three, up to four variables) values of an earlier variable, in 3-4 orders of declaration, 5 kinds of selectors; conditions as declared, through a dictionary, and after slicing, removing and concatenating"


def shapes(n, m=2):
    """every variable: None or (index of its selector, which value)"""
    opts = [[None] + [(p, v) for p in range(i) for v in range(m)] for i in range(n)]
    return [list(c) for c in itertools.product(*opts)]


def cases(tier):
    out = []
    top = 5 if tier == "quick" else 6
    for n in range(1, top + 1):
        for sh in shapes(n, 3 if n <= 4 else 2):
            for kind in KINDS if n < 5 else ("d", "i", "b") if n == 5 else ("d",):
                if any(c and c[1] >= len(KINDS[kind][1]) for c in sh):
                    continue
                out.append({"n": n, "sh": sh, "kind": kind})
    return out


def declare(case):
    spec, lit, vals = KINDS[case["kind"]]
    alt = ["r", 0.0, 1.0]
    n = case["n"]
    par = {c[0] for c in case["sh"] if c}
    items = []
    for i, c in enumerate(case["sh"]):
        cond = None if c is None else f"x{c[0]} == {lit[c[1]]}"
        items.append((f"x{i}", spec if i in par else alt, cond, None if c is None else (c[0], vals[c[1]])))
    return items, vals


def brute(items):
    """all assignments of the selectors; a variable is active iff its selector is active and has the right value"""
    names = [it[0] for it in items]
    have = set(names)
    par = []  # selectors present, with the values some present variable asks for
    asked = {}
    for it in items:
        if it[3] is not None and f"x{it[3][0]}" in have:
            asked.setdefault(f"x{it[3][0]}", []).append(it[3][1])
    sel = sorted(asked)
    byname = {it[0]: it for it in items}
    # a variable whose selector chain leaves the space is not part of any tree: it counts as unconditional
    out = set()
    for combo in itertools.product(*[list(dict.fromkeys(map(lambda v: (type(v).__name__, v), asked[s]))) for s in sel]):
        val = {s: c[1] for s, c in zip(sel, combo)}

        def active(nm):
            it = byname[nm]
            if it[3] is None:
                return True
            p = f"x{it[3][0]}"
            if p not in have:
                return True
            return active(p) and same(val[p], it[3][1])

        act = [nm for nm in names if active(nm)]
        key = tuple((s, val[s]) for s in sel if s in act)
        out.add((key, frozenset(nm for nm in act if nm not in sel)))
    return out


def same(a, b):
    return type(a) == type(b) and a == b


def got(ctx, space):
    res = space.get_unconditional_subspace()
    out = set()
    for key, sub in res:
        nm = [v.name for v in sub.data]
        ctx.check(len(set(nm)) == len(nm), f"a variable occurs twice in the subspace {key}: {nm}")
        e = (tuple(sorted(key.items())), frozenset(nm))
        ctx.check(e not in out, f"the subspace {e} occurs twice")
        out.add(e)
    return out, res


def run_case(case, ctx):
    from bayes_optim.search_space import SearchSpace

    items, vals = declare(case)

    def mk(its):
        vs = []
        for nm, spec, cond, _ in its:
            v = spaces.build_var(spec, nm)
            if cond:
                v.set_conditions(cond)
            vs.append(v)
        return SearchSpace(vs)

    def check(space, its, how):
        ctx.step(how)
        g, res = got(ctx, space)
        w = brute(its)
        norm = lambda S: sorted((repr(k), sorted(v)) for k, v in S)
        ctx.check(norm(g) == norm(w), lambda: f"{how}: subspaces of {[(i[0], i[2]) for i in its]} are {norm(g)}, expected {norm(w)}")
        order = [i[0] for i in its]
        for key, sub in res:
            free = [v.name for v in sub.data if all(v.name != i[0] or (i[3] is None) for i in its)]
            free = [f for f in free]
            ctx.check(free == sorted(free, key=order.index), f"{how}: the unconditional variables {free} are not in the declared order {order}")
            for v in sub.data:
                ctx.check(v == space[v.name], f"{how}: variable {v} differs from the declared one")
        ctx.state((how, norm(w)))

    n = case["n"]
    space = mk(items)
    orders = [list(range(n)), list(range(n))[::-1]]
    if n > 2:
        orders += [[1, 0] + list(range(2, n)), list(range(1, n)) + [0]]
    for o in orders:
        its = [items[i] for i in o]
        check(mk(its), its, f"declared in the order {o}")
    check(SearchSpace.from_dict(space.to_dict()), items, "from_dict")
    check(space[:], items, "full slice")
    check(space[:][:], items, "slice of a slice")
    for i in range(n):
        if n > 1:
            rest = items[:i] + items[i + 1 :]
            # removing a selector removes the conditions on it
            s = mk(items)
            s.remove(f"x{i}")
            if has_orphan(rest):
                continue
            check(s, rest, f"x{i} removed")
            check(mk(items)[[it[0] for it in rest]], rest, f"sliced without x{i}")
    if n > 1:
        for k in range(1, n):
            a, b = items[:k], items[k:]
            if not has_orphan(b):
                check(mk(a) + mk(b), items, f"sum of {k} and {n - k} variables")
    # a subspace may be modified without consequences for the space and the other subspaces
    if items:
        res = space.get_unconditional_subspace()
        before = [[v.name for v in s.data] for _, s in res]
        res[0][1].var_name = "other"
        ctx.eq([[v.name for v in s.data] for _, s in res][1:], before[1:], "variables of the other subspaces after renaming those of one")
        ctx.eq([v.name for v in space.data], [i[0] for i in items], "variables of the space after renaming those of a subspace")
    check(space, items, "the original in the end")
    ctx.trace()


def has_orphan(items):
    have = {i[0] for i in items}
    return any(i[3] is not None and f"x{i[3][0]}" not in have for i in items)
