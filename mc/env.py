"""Owns the nondeterminism of the code under test: clock and random choices.

Every reference that a vrpy module holds to the clock (time.time & co., or the time module) or to a
source of randomness (functions of random, the random module, numpy's RandomState ...) is replaced
by a controlled one for the duration of one execution.  Modules of other packages are left alone."""
import random as _random
import sys
import time as _time
import types

import numpy as _np

_CLOCKS = ("time", "perf_counter", "monotonic", "process_time")


def _modules():
    return [m for k, m in list(sys.modules.items()) if (k == "vrpy" or k.startswith("vrpy.")) and m is not None]


class Patch:
    def __init__(self):
        self.saved = []

    def set(self, mod, name, value):
        self.saved.append((mod, name, getattr(mod, name)))
        setattr(mod, name, value)

    def undo(self):
        for mod, name, v in reversed(self.saved):
            setattr(mod, name, v)
        self.saved = []


class Clock:
    """A clock that stands still until the k-th time it is read, and then jumps by `jump` seconds."""

    def __init__(self, k=None, jump=0.0, tick=0.0):
        self.k, self.jump, self.tick = k, jump, tick
        self.reads = 0

    def __call__(self):
        self.reads += 1
        t = 1000.0 + self.tick * self.reads
        if self.k is not None and self.reads >= self.k:
            t += self.jump
        return t

    def install(self, patch):
        real = {id(getattr(_time, c)) for c in _CLOCKS}
        proxy = types.SimpleNamespace(**{k: getattr(_time, k) for k in dir(_time) if not k.startswith("__")})
        for c in _CLOCKS:
            setattr(proxy, c, self)
        for m in _modules():
            for name, v in list(vars(m).items()):
                if id(v) in real:
                    patch.set(m, name, self)
                elif v is _time:
                    patch.set(m, name, proxy)


class Calls:
    """Counts the runs of the solvers (PuLP, cspy), in total and once the clock has jumped.
    With labelling (cspy), an iteration is a series of runs of cspy after a run of PuLP."""

    def __init__(self, clock=None):
        self.clock, self.total, self.late = clock, 0, 0
        self.rounds, self.late_rounds, self._last = 0, 0, None

    def _count(self, what):
        c = self.clock
        late = c is not None and c.k is not None and c.reads >= c.k
        self.total += 1
        self.late += late
        if what == "cspy" and self._last == "pulp":
            self.rounds += 1
            self.late_rounds += late
        self._last = what

    def install(self, patch):
        import cspy
        import pulp

        def counted(f, what):
            def g(obj, *a, **k):
                self._count(what)
                return f(obj, *a, **k)

            return g

        patch.set(pulp.LpProblem, "solve", counted(pulp.LpProblem.solve, "pulp"))
        for n in dir(cspy):
            c = getattr(cspy, n)
            if isinstance(c, type) and callable(getattr(c, "run", None)):
                patch.set(c, "run", counted(c.run, "cspy"))


class Choices:
    """Resolves every random decision from a given prefix, then by `policy` (index of an alternative)."""

    LOW, HIGH = 0.0, 0.9999999

    def __init__(self, prefix=(), policy=0):
        self.prefix = list(prefix)
        self.policy = policy
        self.diverged = False
        self.sizes = []
        self.taken = []

    def pick(self, n):
        i = len(self.sizes)
        if i < len(self.prefix):
            c = self.prefix[i]
            if not 0 <= c < n:
                # the execution is not a function of the choices alone: any alternative will do
                self.diverged = True
                c %= n
        elif callable(self.policy):
            c = self.policy(i, n) % n
        else:
            c = self.policy % n
        self.sizes.append(n)
        self.taken.append(c)
        return c

    # the API of `random` that code may use
    def choice(self, seq, *a, **k):
        seq = list(range(seq)) if isinstance(seq, int) else list(seq)
        return seq[self.pick(len(seq))]

    def choices(self, seq, weights=None, cum_weights=None, k=1):
        return [self.choice(seq) for _ in range(k)]

    def random(self, *a):
        return (self.LOW, self.HIGH)[self.pick(2)]

    def uniform(self, a=0.0, b=1.0, *r):
        return a + (b - a) * self.random()

    def randrange(self, a, b=None, step=1):
        return self.choice(list(range(a, b, step) if b is not None else range(a)))

    def randint(self, a, b=None, *r):
        return self.choice(list(range(a, b + 1)))

    def shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = self.pick(i + 1)
            x[i], x[j] = x[j], x[i]

    def sample(self, pop, k):
        pop, out = list(pop), []
        for _ in range(k):
            out.append(pop.pop(self.pick(len(pop))))
        return out

    def seed(self, *a):
        return None

    def install(self, patch):
        names = ("choice", "choices", "random", "uniform", "randrange", "randint", "shuffle", "sample", "seed")
        real = {id(getattr(_random, n)): n for n in names}
        # bound methods are created on access: compare by equality
        bound = {n: getattr(_random, n) for n in names}
        proxy = types.SimpleNamespace(**{k: getattr(_random, k) for k in dir(_random) if not k.startswith("__")})
        for n in names:
            setattr(proxy, n, getattr(self, n))
        ctl = self

        class Controlled(_np.random.RandomState):
            def choice(self, a, *r, **k):
                return ctl.choice(a)

            def uniform(self, a=0.0, b=1.0, size=None):
                return ctl.uniform(a, b)

            def random(self, *a):
                return ctl.random()

            def rand(self, *a):
                return ctl.random()

            def random_sample(self, *a):
                return ctl.random()

            def randint(self, a, b=None, *r, **k):
                return ctl.randrange(a, b) if b is not None else ctl.randrange(a)

        for m in _modules():
            for name, v in list(vars(m).items()):
                if v is _random:
                    patch.set(m, name, proxy)
                elif v is _np.random.RandomState:
                    patch.set(m, name, Controlled)
                elif callable(v) and id(v) in real:
                    patch.set(m, name, getattr(self, real[id(v)]))
                else:
                    for n, f in bound.items():
                        try:
                            if type(v) is type(f) and v == f:
                                patch.set(m, name, getattr(self, n))
                        except Exception:  # noqa: BLE001
                            pass


def controlled(f, *parts):
    p = Patch()
    for x in parts:
        x.install(p)
    try:
        return f()
    finally:
        p.undo()
