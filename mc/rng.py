"""Control of the random-number environment.

Every draw the code under test takes from numpy's global generator becomes an explicit choice point. The
default answer is taken from a fixed stream; a *deviation* replaces the answer of one draw (or of all draws
made at one call site) by an extreme member of the draw's support. `explore` enumerates all plans with at
most `bound` deviations (deviation-bounded exhaustive search).
"""
import itertools
import sys
from contextlib import contextmanager

import numpy as np

BELOW_ONE = 1.0 - 2.0**-53
NAMES = ("rand", "random", "random_sample", "randn", "standard_normal", "randint", "geometric", "choice",
         "permutation", "shuffle", "uniform", "normal", "seed")
ORIG = {n: getattr(np.random, n) for n in NAMES}
N_MENU = {"rand": 4, "random": 4, "random_sample": 4, "randn": 4, "standard_normal": 4, "randint": 3, "geometric": 3, "choice": 2,
          "permutation": 2, "shuffle": 1, "uniform": 3, "normal": 4, "seed": 0}


def _alt(shape, a, b):
    out = np.empty(shape)
    flat = out.reshape(-1)
    flat[0::2], flat[1::2] = a, b
    return out if shape != () else float(out)


def _fill(shape, v):
    return np.full(shape, v) if shape != () else float(v)


def _shape(size):
    if size is None:
        return ()
    return (int(size),) if np.isscalar(size) else tuple(int(s) for s in size)


class Env:
    def __init__(self, plan=None, by_site=False, stream=20240229):
        self.rs = np.random.RandomState(stream)
        self.plan = dict(plan or {})
        self.by_site = by_site
        self.calls = []  # (name, n_menu) or site keys
        self.sites = []
        self._site_idx = {}

    # -- deciding -------------------------------------------------------------------------------
    def pick(self, name):
        if self.by_site:
            f = sys._getframe(2)
            while f is not None and f.f_code.co_filename == __file__:
                f = f.f_back
            key = (f.f_code.co_filename, f.f_lineno, name)
            if key not in self._site_idx:
                self._site_idx[key] = len(self.sites)
                self.sites.append((name, N_MENU[name]))
            return self.plan.get(self._site_idx[key])
        k = len(self.calls)
        self.calls.append((name, N_MENU[name]))
        return self.plan.get(k)

    @property
    def points(self):
        return self.sites if self.by_site else self.calls

    # -- answers --------------------------------------------------------------------------------
    def _unit(self, shape, m):
        if m == 0:
            return _fill(shape, 0.0)
        if m == 1:
            return _fill(shape, BELOW_ONE)
        if m == 2:
            # two strata of a Latin hypercube design must not meet in one point (pyDOE cannot handle that)
            f = sys._getframe(2)
            return _alt(shape, 0.0, 0.75 if "pyDOE" in f.f_code.co_filename else BELOW_ONE)
        return _alt(shape, 0.5, 0.25)

    def rand(self, *d):
        m = self.pick("rand")
        return self.rs.rand(*d) if m is None else self._unit(tuple(d), m)

    def random(self, size=None):
        m = self.pick("random")
        return self.rs.random_sample(size) if m is None else self._unit(_shape(size), m)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        m = self.pick("uniform")
        if m is None:
            return self.rs.uniform(low, high, size)
        shape = _shape(size) if size is not None else np.broadcast(low, high).shape
        u = self._unit(shape, m)
        return np.asarray(low) + (np.asarray(high) - np.asarray(low)) * u

    def _gauss(self, shape, m):
        if m == 0:
            return _fill(shape, 8.0)
        if m == 1:
            return _fill(shape, -8.0)
        if m == 2:
            return _alt(shape, 8.0, -8.0)
        return _alt(shape, 1e-9, -1e-9)

    def randn(self, *d):
        m = self.pick("randn")
        return self.rs.randn(*d) if m is None else self._gauss(tuple(d), m)

    def standard_normal(self, size=None):
        m = self.pick("standard_normal")
        return self.rs.standard_normal(size) if m is None else self._gauss(_shape(size), m)

    def normal(self, loc=0.0, scale=1.0, size=None):
        m = self.pick("normal")
        if m is None:
            return self.rs.normal(loc, scale, size)
        shape = _shape(size) if size is not None else np.broadcast(loc, scale).shape
        return np.asarray(loc) + np.asarray(scale) * self._gauss(shape, m)

    def randint(self, low, high=None, size=None, dtype=int):
        m = self.pick("randint")
        if m is None:
            return self.rs.randint(low, high, size, dtype)
        if high is None:
            low, high = 0, low
        shape = _shape(size)
        lo, hi = int(np.min(low)), int(np.max(high)) - 1
        v = {0: _fill(shape, lo), 1: _fill(shape, hi), 2: _alt(shape, lo, hi)}[m]
        return np.asarray(v).astype(dtype) if shape != () else int(v)

    def geometric(self, p, size=None):
        m = self.pick("geometric")
        if m is None:
            return self.rs.geometric(p, size)
        shape = _shape(size) if size is not None else np.shape(p)
        v = {0: _fill(shape, 1), 1: _fill(shape, 1000), 2: _alt(shape, 1, 37)}[m]
        return np.asarray(v).astype(int) if shape != () else int(v)

    def choice(self, a, size=None, replace=True, p=None):
        m = self.pick("choice")
        if m is None:
            return self.rs.choice(a, size, replace, p)
        pool = np.arange(a) if np.isscalar(a) else np.asarray(a)
        if p is not None:
            pool = pool[np.asarray(p) > 0]
        if size is None:
            return pool[0] if m == 0 else pool[-1]
        n = int(np.prod(size))
        if replace:
            out = np.array([pool[0 if m == 0 else -1]] * n)
        else:
            out = pool[:n] if m == 0 else pool[::-1][:n]
        return out.reshape(size)

    def permutation(self, x):
        m = self.pick("permutation")
        if m is None:
            return self.rs.permutation(x)
        pool = np.arange(x) if np.isscalar(x) else np.array(x)
        return pool if m == 0 else pool[::-1].copy()

    def shuffle(self, x):
        m = self.pick("shuffle")
        if m is None:
            return self.rs.shuffle(x)
        x[:] = x[::-1]

    def seed(self, seed=None):
        if seed is not None:
            self.rs.seed(seed)


@contextmanager
def controlled(env):
    """Route all draws of numpy's global generator through `env`."""
    patches = []
    by_id = {id(f): n for n, f in ORIG.items()}
    for n in NAMES:
        patches.append((np.random.__dict__, n, ORIG[n]))
        np.random.__dict__[n] = getattr(env, n)
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name.startswith("bayes_optim") or name.startswith("pyDOE")):
            continue
        g = getattr(mod, "__dict__", {})
        for k, v in list(g.items()):
            n = by_id.get(id(v))
            if n is not None:
                patches.append((g, k, v))
                g[k] = getattr(env, n)
    try:
        yield env
    finally:
        for g, k, v in reversed(patches):
            g[k] = v


def explore(run, bound=1, by_site=False, stream=20240229, ctx=None, cap=None):
    """Execute `run(env)` under every plan with at most `bound` deviations; returns (#executions, complete)."""
    n = 0
    stack = [()]
    complete = True
    while stack:
        plan = stack.pop()
        env = Env(plan, by_site, stream)
        if ctx is not None:
            ctx.new_trace()
            ctx.trail.append(f"random-environment deviations {plan} by_site={by_site}")
        with controlled(env):
            run(env)
        n += 1
        if cap is not None and n >= cap:
            complete = not stack
            break
        if len(plan) < bound:
            start = plan[-1][0] + 1 if plan else 0
            for i in range(start, len(env.points)):
                for m in range(env.points[i][1]):
                    stack.append(plan + ((i, m),))
    return n, complete


class Scripted(Env):
    """Enumerate *all* answers of the finite draws (randint / choice / permutation) made by the code: the
    answer vector of every such draw is an explicit branch. Continuous draws keep the fixed stream."""

    def __init__(self, script, stream=20240229):
        super().__init__({}, False, stream)
        self.script = list(script)
        self.taken = []
        self.widths = []

    def _branch(self, width):
        k = len(self.taken)
        c = self.script[k] if k < len(self.script) else 0
        self.taken.append(c)
        self.widths.append(width)
        return c

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        w = int(high) - int(low)
        shape = _shape(size)
        n = int(np.prod(shape)) if shape != () else 1
        out = [int(low) + self._branch(w) for _ in range(n)]
        return out[0] if shape == () else np.array(out, dtype=dtype).reshape(shape)


def explore_all(run, ctx=None, cap=200000):
    """Depth-first enumeration of every answer of the finite draws."""
    script, n = [], 0
    while True:
        env = Scripted(script)
        with controlled(env):
            run(env)
        n += 1
        taken, widths = env.taken, env.widths
        i = len(taken) - 1
        while i >= 0 and taken[i] + 1 >= widths[i]:
            i -= 1
        if i < 0 or n >= cap:
            return n, i < 0
        script = taken[:i] + [taken[i] + 1]


class Lattice(Scripted):
    """Enumerate the answers of *all* draws: uniform numbers from a grid, finite draws completely."""

    GRID = (0.0, 0.25, 0.5, 0.75, BELOW_ONE)

    def _units(self, shape):
        n = int(np.prod(shape)) if shape != () else 1
        out = [self.GRID[self._branch(len(self.GRID))] for _ in range(n)]
        return out[0] if shape == () else np.array(out).reshape(shape)

    def rand(self, *d):
        return self._units(tuple(d))

    def random(self, size=None):
        return self._units(_shape(size))

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        shape = _shape(size) if size is not None else np.broadcast(low, high).shape
        return np.asarray(low) + (np.asarray(high) - np.asarray(low)) * self._units(shape)

    def choice(self, a, size=None, replace=True, p=None):
        pool = list(range(a)) if np.isscalar(a) else list(a)
        shape = _shape(size)
        n = int(np.prod(shape)) if shape != () else 1
        out = []
        for _ in range(n):
            k = self._branch(len(pool))
            out.append(pool[k] if replace else pool.pop(k))
        if shape == ():
            return out[0]
        res = np.empty(n, dtype=np.asarray(a).dtype if not np.isscalar(a) else int)
        res[:] = out
        return res.reshape(shape)

    def permutation(self, x):
        pool = np.arange(x) if np.isscalar(x) else np.array(x)
        return pool[self.choice(len(pool), len(pool), replace=False)]


def explore_lattice(run, cap=400000):
    script, n = [], 0
    while True:
        env = Lattice(script)
        with controlled(env):
            run(env)
        n += 1
        taken, widths = env.taken, env.widths
        i = len(taken) - 1
        while i >= 0 and taken[i] + 1 >= widths[i]:
            i -= 1
        if i < 0 or n >= cap:
            return n, i < 0
        script = taken[:i] + [taken[i] + 1]
