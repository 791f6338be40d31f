"""P12: operations on search spaces behave like operations on the ordered list of their variables."""
import copy
import itertools

import numpy as np

from mc import spaces
from mc.core import Violation

LEVEL = "model_checking"
ASSUMPTIONS = ["renaming a selector leaves the conditions that mention its old name without effect, like removing it; update() keeps the conditional structure (documented)", "indices are integers, slices, names, lists of integers or names, and boolean masks"]
CHUNK = 1

# an operand is a list of (name, spec)
OPER = {
    "A": [("x", ["r", -5.0, 5.0]), ("k", ["i", 0, 8, 2])],
    "B": [("x", ["d", ["u", "v"]]), ("y", ["b"])],
    "C": [("z", ["r", 0.01, 10.0, {"scale": "log", "precision": 3}])],
    "D": [("x0", ["o", [1, 2, 4]]), ("x", ["s", ["p", "q"]]), ("y", ["i", -3, 3])],
    "E": [("k", ["i", 1, 5]), ("k1", ["i", 0, 3])],
}
COND = [("sel", ["d", ["a", "b"]], None), ("u", ["r", 0.0, 1.0], "sel == 'a'"), ("v", ["i", 0, 5], "sel == 'b'"), ("w", ["b"], "sel == 'a'"), ("free", ["r", -1.0, 1.0], None), ("t", ["i", 1, 2], None), ("c", ["b"], "t == 2")]
OTHER = {"F": [("f1", ["r", 2.0, 3.0], None)], "G": [("g", ["i", 0, 1], None), ("h", ["d", ["m", "n"]], "g == 1")], "sel-": [("sel", ["d", ["a", "b"]], None)], "u-": [("u", ["b"], None), ("free", ["b"], None)],
         "S": [("u", ["i", 0, 2], "sel == 'b'"), ("sel", ["d", ["a", "b", "q"]], None), ("new", ["r", 0.0, 2.0], "t == 1"), ("t", ["r", 1.0, 2.0], None)]}

OPS = [["add", o] for o in "BDE"] + [["iadd", o] for o in "BCD"] + [["radd", "A"], ["sub", "B"], ["isub", "A"], ["isub", "D"], ["sub", "C"], ["mul", 2], ["imul", 2], ["imul", 1], ["mul", 1],
       ["slice", 0, 1], ["slice", 1, None], ["slice", None, -1], ["step"], ["mask", 1], ["mask", 2], ["names", -1, 0], ["ints", 1, 0], ["nparr", -1, 0],
       ["pop", -1], ["pop", 0], ["remove", 0], ["remname", 1], ["remname", 0], ["filter", False], ["filter", True], ["update", "B"], ["update", "D"], ["concat", "AC"], ["concat", "BE"], ["concat", ""],
       ["set", 0, "C", 0], ["set", -1, "B", 1], ["setname", 0, "D", 0], ["setmany", "A"], ["rename", "n"], ["rename2"]]


def BOUNDS(tier):
    return f"all sequences of {2 if tier == 'quick' else 3} operations out of {len(OPS)} (sum, difference, replication, slicing by position/name/mask, removal, filtering, update, concatenation, assignment, renaming; in place and not) from 5 start spaces over all variable types; all sequences of {3 if tier == 'quick' else 4} operations (renaming, replacing and replicating variables included) on a conditional space; the constructors of all typed spaces with every combination of omitted, common and individual options"


COPS = [["iadd", "F"], ["add", "G"], ["isub", "sel-"], ["sub", "u-"], ["isub", "u-"], ["iadd", "G"], ["slice", 1, None], ["slice", 0, -1], ["mask", 1], ["mask", 2], ["pop", 0], ["pop", -1], ["remname", 1], ["remove", 0], ["filter", False], ["filter", True], ["concat", "F"], ["names", -1, 0],
        ["rename", "n"], ["rename3"], ["swap"], ["imul", 2], ["set", 1, "S", 0], ["set", 0, "S", 1], ["set", -1, "S", 2], ["setname", 1, "S", 2], ["setname", -2, "S", 3]]


def cases(tier):
    out = []
    for s in OPER:
        for op in range(len(OPS)):
            out.append({"k": "list", "start": s, "first": op, "d": 2 if tier == "quick" else 3})
    for t in KIND.values():
        out.append({"k": "ctor", "t": t})
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        out += [{"k": "dup", "first": a, "n": n} for a in range(len(DUP))]
    for op in range(len(COPS)):
        out.append({"k": "cond", "first": op, "d": 3 if tier == "quick" else 4})
    return out


def mkvar(name, spec, cond=None):
    v = spaces.build_var(spec, name)
    if cond:
        v.set_conditions(cond)
    return v


def mk(items):
    from bayes_optim.search_space import SearchSpace

    return SearchSpace([mkvar(*it) for it in items])


KIND = {"r": "Real", "i": "Integer", "d": "Discrete", "o": "Ordinal", "b": "Bool", "s": "Subset"}


def bounds_of(spec):
    if spec[0] in "ri":
        return (spec[1], spec[2])
    if spec[0] == "b":
        return (False, True)
    return tuple(spaces.values(spec))


def uniq(items):
    """model of making names unique: only names that occur more than once may change"""
    cnt = {}
    for it in items:
        cnt[it[0]] = cnt.get(it[0], 0) + 1
    return [(None if cnt[it[0]] > 1 else it[0], it[0]) + tuple(it[1:]) for it in items]


def settle(ctx, space, items):
    """check the space against the model list; returns the model with the actual (new) names"""
    from bayes_optim import search_space as ss

    ctx.eq(len(space), len(items), "number of variables")
    ctx.eq(space.dim, len(items), "dimension")
    nm = [v.name for v in space.data]
    ctx.eq(list(space.var_name), nm, "names of the space and of its variables")
    ctx.check(len(set(nm)) == len(nm), f"names are not unique: {nm}")
    out = []
    for (fix, orig, *rest), name in zip(uniq(items), nm):
        if fix is not None:
            ctx.eq(name, fix, "name of a variable that does not collide")
        else:
            ctx.check(name.startswith(orig), f"{orig} was renamed to {name}")
        out.append((name,) + tuple(rest))
    kinds = [KIND[it[1][0]] for it in out]
    ctx.eq(list(space.var_type), kinds, "variable types")
    ctx.eq(list(space.bounds), [bounds_of(it[1]) for it in out], "bounds")
    if out:
        for t in KIND.values():
            want = [i for i, k in enumerate(kinds) if k == t]
            ctx.eq(list(getattr(space, t.lower() + "_id")), want, f"indices of the {t} variables")
            ctx.eq(list(map(bool, getattr(space, t.lower() + "_mask"))), [k == t for k in kinds], f"mask of the {t} variables")
        cat = [i for i, k in enumerate(kinds) if k not in ("Real", "Integer")]
        ctx.eq(sorted(space.categorical_id), cat, "indices of the categorical variables")
        ctx.eq(list(map(bool, space.categorical_mask)), [i in cat for i in range(len(kinds))], "mask of the categorical variables")
        ctx.eq(dict(space.levels), {i: bounds_of(out[i][1]) for i in cat}, "levels")
        ctx.eq(type(space).__name__, (kinds[0] + "Space") if len(set(kinds)) == 1 else "SearchSpace", "class of the space")
    for it, v in zip(out, space):
        ctx.check(v is space[it[0]], "access by name and by position differ", it[0])
        ctx.check(it[0] in space, "a variable's name is not in the space", it[0])
        ctx.check(v in space, "a variable is not in its space", it[0])
        want = mkvar(*it)
        ctx.check(v == want and not (v != want), lambda: f"variable {v} differs from {want}")
        for a in ("precision", "scale", "step", "default_value"):
            ctx.eq(getattr(v, a, None), getattr(want, a, None), f"{a} of {it[0]}")
    ctx.check("no such name" not in space, "an unknown name is in the space")
    if out:
        np.random.seed(3)
        X = space.sample(2)
        ctx.eq(X.shape, (2, len(out)), "shape of a sample")
        for row in X:
            for it, v in zip(out, row):
                why = spaces.admissible(it[1], v.item() if isinstance(v, np.generic) else v)
                ctx.check(why is None, f"sample of {it[0]}: {why}")
        ctx.check(space == copy.deepcopy(space) and not (space != copy.deepcopy(space)), "a space differs from its copy")
    return out


def snap(space):
    return [(v.name, type(v).__name__, v.bounds, v.default_value, getattr(v, "precision", None), getattr(v, "scale", None), getattr(v, "step", None)) for v in space.data]


def subs(space):
    return sorted(repr((sorted(k.items(), key=repr), sorted(v.name for v in s.data))) for k, s in space.get_unconditional_subspace())


def apply(ctx, op, space, items, oper):
    """returns (space, items, operands that must be unchanged) or None if not applicable"""
    from bayes_optim.search_space import SearchSpace

    n = len(items)
    o = op[0]
    other = mk(oper[op[1]]) if len(op) > 1 and isinstance(op[1], str) and op[1] in oper else None
    if o == "add":
        return space + other, items + oper[op[1]], [space, other]
    if o == "radd":
        return other + space, oper[op[1]] + items, [space, other]
    if o == "iadd":
        r = space
        r += other
        ctx.check(r is space, "in-place sum made a new object")
        return r, items + oper[op[1]], [other]
    if o in ("sub", "isub"):
        gone = {it[0] for it in oper[op[1]]}
        rest = [it for it in items if it[0] not in gone]
        if not rest:
            return None
        if o == "sub":
            return space - other, rest, [space, other]
        r = space
        r -= other
        ctx.check(r is space, "in-place difference made a new object")
        return r, rest, [other]
    if o == "mul":
        return (space * op[1] if op[1] == 2 else op[1] * space), items * op[1], [space]
    if o == "imul":
        if n > 6:
            return None
        r = space
        r *= op[1]
        return r, items * op[1], []
    if o == "slice":
        new = items[op[1] : op[2]]
        return (space[op[1] : op[2]], new, [space]) if new else None
    if o == "step":
        return space[::2], items[::2], [space]
    if o == "mask":
        m = [(i + op[1]) % 2 == 0 or i == n - 1 for i in range(n)]
        mm = np.array(m) if op[1] == 1 else m
        return space[mm], [it for it, b in zip(items, m) if b], [space]
    if o in ("names", "ints", "nparr"):
        if n < 2:
            return None
        idx = [i % n for i in op[1:]]
        if len(set(idx)) < 2:
            return None
        key = [items[i][0] for i in idx] if o == "names" else idx if o == "ints" else np.array(idx)
        return space[key], [items[i] for i in idx], [space]
    if o == "pop":
        if n < 2:
            return None
        v = space.pop(op[1])
        ctx.eq(v.name, items[op[1]][0], "popped variable")
        new = list(items)
        new.pop(op[1])
        return space, new, []
    if o in ("remove", "remname"):
        if n < 2:
            return None
        r = space.remove(op[1] if o == "remove" else items[op[1]][0])
        ctx.check(r is space, "remove returned another object")
        new = list(items)
        new.pop(op[1])
        return space, new, []
    if o == "filter":
        keep = {items[0][0], items[-1][0]}
        new = [it for it in items if (it[0] in keep) != op[1]]
        return (space.filter(list(keep) + ["nobody"], invert=op[1]), new, [space]) if new else None
    if o == "update":
        new = list(items)
        for it in oper[op[1]]:
            k = [j for j, x in enumerate(new) if x[0] == it[0]]
            if k:
                new[k[0]] = it
            else:
                new.append(it)
        r = space.update(other)
        ctx.check(r is space, "update returned another object")
        return space, new, [other]
    if o == "concat":
        others = [mk(oper[c]) for c in op[1]] if op[1] not in oper else [other]
        add = sum([oper[c] for c in op[1]], []) if op[1] not in oper else oper[op[1]]
        return SearchSpace.concat(space, *others), items + add, [space] + others
    if o in ("set", "setname"):
        it = oper[op[2]][op[3]]
        k = op[1]
        if not -n <= k < n:
            return None
        if o == "set":
            space[k] = mkvar(*it)
        else:
            space[items[k][0]] = mkvar(*it)
        new = list(items)
        new[k] = it
        return space, new, []
    if o == "setmany":
        if n < 2:
            return None
        a, b = oper["A"]
        space[[0, items[1][0]]] = [mkvar(*a), mkvar(*b)]
        return space, [a, b] + items[2:], []
    if o == "rename":
        space.var_name = op[1]
        return space, [(f"{op[1]}{i}",) + tuple(it[1:]) for i, it in enumerate(items)], []
    if o == "rename3":  # the names of every other variable
        nm = [it[0] + "_" if i % 2 else it[0] for i, it in enumerate(items)]
        space.var_name = nm
        return space, [(a,) + tuple(it[1:]) for a, it in zip(nm, items)], []
    if o == "swap":
        if n < 3:
            return None
        nm = [it[0] for it in items]
        nm[1], nm[2] = nm[2], nm[1]
        up = {a: it[2].split()[0] for a, it in zip(nm, items) if len(it) > 2 and it[2]}
        for a in up:  # conditions in a circle make no sense
            for _ in nm:
                a = up.get(a)
            if a is not None:
                return None
        space.var_name = nm
        return space, [(a,) + tuple(it[1:]) for a, it in zip(nm, items)], []
    if o == "rename2":
        nm = [f"q{n - i}" for i in range(n)]
        space.var_name = nm
        return space, [(a,) + tuple(it[1:]) for a, it in zip(nm, items)], []
    raise KeyError(o)


# class -> bounds of up to three variables, and optional arguments with a value per variable
CTOR = {
    "Real": ([[-1.0, 2.0], [0.5, 8.0], [2, 4]], {"precision": [1, 0, 3], "scale": ["linear", "log10", "log"], "default_value": [0.5, 8.0, 2.0]}),
    "Integer": ([[0, 9], [-6, 6], [1, 7]], {"step": [3, 2, 1], "default_value": [3, 0, 7]}),
    "Ordinal": ([[1, 2, 4], [9, 3], [5]], {"default_value": [4, 9, 5]}),
    "Discrete": ([["a", "b"], ["c", "a", "q"], ["u"]], {"default_value": ["b", "c", "u"]}),
    "Subset": ([["a", "b"], ["x", "y", "z"], ["u"]], {"default_value": [("a", "b"), ("z",), ("u",)]}),
    "Bool": ([[False, True]] * 3, {"default_value": [False, True, False]}),
}


def ctor(case, ctx):
    """spaces made by the constructors of the typed spaces: one variable per bound, with the options of that variable"""
    from bayes_optim import search_space as ss

    T = case["t"]
    cls = getattr(ss, T + "Space")
    B, opts = CTOR[T]
    for n, flat, nm, how in itertools.product((1, 2, 3), (False, True), (None, "str", "list"), itertools.product(("no", "one", "each"), repeat=len(opts))):
        if flat and n != 1 or T == "Bool" and (n > 1) != (nm == "list"):
            continue
        b = list(B[0]) if flat else [list(x) for x in B[:n]]
        kw = {}
        stem = T.lower() if nm is None else "nm"
        names = [f"v{i}" for i in range(n)] if nm == "list" else [stem] if n == 1 else [f"{stem}{i}" for i in range(n)]
        if nm is not None:
            kw["var_name"] = names if nm == "list" else stem
        want = [{"name": a, "bounds": tuple(B[i])} for i, a in enumerate(names)]
        ok = True
        for (key, vals), h in zip(opts.items(), how):
            if h == "one":
                if key == "default_value" and (T not in ("Real", "Bool") or n > 1) and T in ("Subset", "Ordinal", "Discrete", "Integer", "Real") and (n > 1 or T == "Subset"):
                    ok = False  # one default for several ranges
                    break
                if key == "scale" and n > 1:
                    ok = False
                    break
                kw[key] = vals[0]
                for w in want:
                    w[key] = vals[0]
            elif h == "each":
                kw[key] = list(vals[:n])
                for w, v in zip(want, vals):
                    w[key] = v
        if not ok:
            continue
        ctx.new_trace()
        S = cls(**kw) if T == "Bool" else cls(b, **kw)
        ctx.step(f"{T}Space({'' if T == 'Bool' else b}, {kw})")
        ctx.check(type(S) is cls, lambda: f"made a {type(S).__name__}")
        ctx.eq(len(S.data), n, "number of variables")
        for v, w in zip(S.data, want):
            ctx.eq(type(v).__name__, T, "type of a variable")
            lv = tuple(spaces.subsets(list(w["bounds"]))) if T == "Subset" else w["bounds"]
            ctx.eq((v.name, tuple(v.bounds)), (w["name"], lv), "name and bounds of a variable")
            for key in opts:
                if key in w:
                    ctx.eq(getattr(v, key), w[key], f"{key} of {w['name']}")
                elif key == "step":
                    ctx.eq(v.step, 1, "step")
                elif key == "scale":
                    ctx.eq(v.scale, "linear", "scale")
                elif T != "Bool":
                    ctx.eq(getattr(v, key), None, f"{key} of {w['name']}")
        ctx.eq(list(S.var_name), names, "names of the space")
        np.random.seed(5)
        for row in S.sample(3).tolist():
            ctx.check(len(row) == n and all(x in v for x, v in zip(row, S.data)), lambda: f"sample {row} not in the space")
            ctx.check(row in S and dict(zip(names, row)) in S, lambda: f"sample {row} not in the space")
        ctx.state(("ctor", T, n, flat, nm, how))
        ctx.trace()


# names some of which are prefixes of others
DUP = ["x", "x0", "xy", "x00", "y"]


def dup(case, ctx):
    """spaces made from variables of the same name, their sums and replications"""
    import itertools

    sp = [["r", 0.0, 1.0], ["i", 0, 5], ["d", ["a", "b"]], ["b"], ["o", [3, 4]]]
    for rest in itertools.product(range(len(DUP)), repeat=case["n"] - 1):
        ctx.new_trace()
        items = [(DUP[k], sp[j]) for j, k in enumerate((case["first"],) + rest)]
        ctx.step(f"variables named {[i[0] for i in items]}")
        s = mk(items)
        items = settle(ctx, s, items)
        ctx.state(tuple(i[0] for i in items))
        for k in (2, 3):
            r = s * k
            ctx.step(f"* {k}")
            settle(ctx, r, items * k)
        r = s + mk(items)
        ctx.step("+ itself")
        settle(ctx, r, items * 2)
        ctx.trace()


def run_case(case, ctx):
    if case["k"] == "dup":
        return dup(case, ctx)
    if case["k"] == "ctor":
        return ctor(case, ctx)
    cond = case["k"] == "cond"
    ops, oper = (COPS, OTHER) if cond else (OPS, OPER)
    for tail in itertools.product(range(len(ops)), repeat=case["d"] - 1):
        seq = [case["first"]] + list(tail)
        ctx.new_trace()
        items = COND if cond else OPER[case["start"]]
        space = mk(items)
        items = settle(ctx, space, items)
        past = []
        for k in seq:
            op = ops[k]
            if cond and op[0] in ("add", "iadd", "concat") and {i[0] for i in items} & {i[0] for i in oper[op[1]]}:
                break
            ctx.step(op)
            before = [(space, snap(space))]
            r = apply(ctx, op, space, items, oper)
            if r is None:
                break
            new, model, same = r
            if len(model) > 12:
                break
            model = settle(ctx, new, model)
            for sp, b in before:
                if any(sp is x for x in same):
                    ctx.eq(snap(sp), b, f"{op}: the left operand changed")
                    ctx.check(sp is not new, f"{op} returned its operand instead of a new space")
            for sp in same:
                if sp is not space and len(op) > 1:
                    keys = [op[1]] if op[1] in oper else list(op[1])
                    ctx.check(any(snap(sp) == snap(mk(oper[c])) for c in keys), f"{op}: the other operand changed")
                    if op[0] in ("add", "radd", "iadd", "concat", "update"):
                        ctx.check(not any(v is w for v in sp.data for w in new.data), f"{op}: the result shares variables with an operand")
            # whatever is done to a space leaves those it was derived from as they were
            past = [(sp, b) for sp, b in past + before if sp is not new]
            for sp, b in past:
                ctx.check(snap(sp) == b and list(sp.var_name) == [x[0] for x in b], lambda: f"{op} on a space changed another one it was derived from: {b} -> {snap(sp)}, names {sp.var_name}")
            if cond:
                ctx.eq(subs(new), subs(mk(model)), "subspaces after the operation vs. those of a space made afresh from the same variables")
            space, items = new, model
            ctx.state(("c" if cond else "l", [(i[0], str(i[1])) for i in items]))
        ctx.trace()
    ctx.sample(f"last sequence {[ops[k] for k in seq]} -> {[i[0] for i in items]}")
