"""The harness-side view: symbolic inputs, nondeterministic stubs, assumptions and assertions.

The same harness runs in two modes: SymCtx (inputs are z3 terms) and ConcCtx (inputs are the concrete values of a
counterexample or of a validated path), so that every counterexample is replayed on the plain, unproxied code."""
import random
import sys

from .engine import (CheckFailed, Explorer, PathAbort, SymBool, SymInt, SymReal, is_sym, model_value, simp, tobool)
from .z3path import z3

_MISSING = object()


class Ctx:
    symbolic = False

    def __init__(self, config, tier):
        self.config = config or {}
        self.tier = tier
        self.counter = {}
        self.patches = []
        self.obs = []
        self.labels = []
        self.checks = 0

    def _name(self, name):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return name if k == 0 else "%s#%d" % (name, k)

    # -- patching (stubs)
    def patch(self, obj, attr, value):
        d = vars(obj) if not isinstance(obj, dict) else obj
        old = d.get(attr, _MISSING)
        self.patches.append((obj, attr, old))
        if isinstance(obj, dict):
            obj[attr] = value
        else:
            setattr(obj, attr, value)

    def unpatch(self):
        while self.patches:
            obj, attr, old = self.patches.pop()
            if isinstance(obj, dict):
                if old is _MISSING:
                    obj.pop(attr, None)
                else:
                    obj[attr] = old
            elif old is _MISSING:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)

    def observe(self, name, value):
        self.obs.append((name, value))

    def reach(self, label):
        self.labels.append(label)

    # -- derived nondeterminism
    def choice(self, name, options):
        options = list(options)
        if not options:
            raise IndexError("choice from an empty sequence")
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def index(self, name, n):
        return self.choice(name, range(n))

    def permutation(self, name, items):
        items = list(items)
        out = []
        while items:
            out.append(items.pop(self.index(name, len(items))))
        return out

    def subset(self, name, items):
        return [x for x in items if self.bool(name)]

    def ints(self, name, n, lo, hi):
        return [self.int("%s%d" % (name, i), lo, hi) for i in range(n)]

    # -- standard environment stubs
    def stub_random(self, real=True):
        """random / numpy.random return an arbitrary value of their documented range."""
        import numpy as np
        c = self

        def choices(population, weights=None, *, cum_weights=None, k=1):
            population = list(population)
            res = []
            for _ in range(k):
                if weights is None and cum_weights is None:
                    res.append(c.choice("rnd.choices", population))
                    continue
                w = list(weights) if weights is not None else None
                if w is None:
                    cw = list(cum_weights)
                    w = [cw[0]] + [b - a for a, b in zip(cw, cw[1:])]
                if len(w) != len(population):
                    raise ValueError("The number of weights does not match the population")
                i = c.index("rnd.choices", len(population))
                c.assume(w[i] > 0)
                res.append(population[i])
            return res

        def rchoice(seq):
            return c.choice("rnd.choice", seq)

        def randint(a, b):
            return c.int("rnd.randint", a, b)

        def rnd():
            return c.real("rnd.random", 0, 1, hi_open=True)

        def uniform(a, b):
            return a + (b - a) * rnd()

        def randrange(a, b=None, step=1):
            if b is None:
                a, b = 0, a
            return c.choice("rnd.randrange", range(a, b, step))

        def shuffle(x):
            x[:] = c.permutation("rnd.shuffle", x)

        def sample(population, k):
            if not 0 <= k <= len(population):
                raise ValueError("Sample larger than population or is negative")
            items, out = list(population), []
            for _ in range(k):
                out.append(items.pop(c.index("rnd.sample", len(items))))
            return out

        for n, f in dict(choices=choices, choice=rchoice, randint=randint, random=rnd, uniform=uniform,
                         randrange=randrange, shuffle=shuffle, sample=sample).items():
            self.patch(random, n, f)

        def np_shape(size, gen):
            if size is None:
                return gen()
            shape = (size,) if isinstance(size, int) else tuple(size)
            out = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                out[ix] = gen()
            if not c.symbolic:
                out = np.array(out.tolist())
            return out

        def np_randint(low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            if not c.symbolic or not is_sym(high):
                if high - 1 < low:
                    raise ValueError("low >= high")
            return np_shape(size, lambda: c.int("np.randint", low, high - 1))

        def np_random(size=None):
            return np_shape(size, lambda: c.real("np.random", 0, 1, hi_open=True))

        def np_rand(*dims):
            return np_random(dims or None)

        def np_choice(a, size=None, replace=True, p=None):
            items = list(range(a)) if isinstance(a, int) else list(a)
            probs = list(p) if p is not None else None
            if not items:
                raise ValueError("a must be non-empty")
            if probs is not None:
                if len(probs) != len(items):
                    raise ValueError("'a' and 'p' must have same size")
                if any(x < 0 for x in probs):
                    raise ValueError("probabilities are not non-negative")
                if abs(sum(probs) - 1) > 1e-6:
                    raise ValueError("probabilities do not sum to 1")

            def gen():
                i = c.index("np.choice", len(items))
                if probs is not None:
                    c.assume(probs[i] > 0)
                v = items[i]
                if not replace:
                    items.pop(i)
                    if probs is not None:
                        probs.pop(i)
                return v
            if size is None:
                return gen()
            if not replace:
                n = size if isinstance(size, int) else int(np.prod(size))
                if n > len(items):
                    raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            return np_shape(size, gen)

        def np_shuffle(x):
            perm = c.permutation("np.shuffle", range(len(x)))
            old = [x[i] for i in range(len(x))]
            for i, j in enumerate(perm):
                x[i] = old[j]

        def np_permutation(x):
            items = list(range(x)) if isinstance(x, int) else list(x)
            return np.array(c.permutation("np.permutation", items), dtype=object if c.symbolic else None)

        def np_uniform(low=0.0, high=1.0, size=None):
            return np_shape(size, lambda: low + (high - low) * c.real("np.uniform", 0, 1, hi_open=True))

        for n, f in dict(randint=np_randint, random=np_random, random_sample=np_random, rand=np_rand,
                         choice=np_choice, shuffle=np_shuffle, permutation=np_permutation, uniform=np_uniform).items():
            self.patch(np.random, n, f)


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, ex, config, tier):
        super().__init__(config, tier)
        self.ex = ex
        self.vars = {}

    def _declare(self, name, v):
        self.vars[name] = v

    def int(self, name, lo, hi):
        name = self._name(name)
        if not is_sym(lo) and not is_sym(hi):
            if lo > hi:
                raise ValueError("empty range for %s" % name)
            if lo == hi:
                return int(lo)
        v = z3.Int(name)
        self._declare(name, v)
        s = SymInt(v)
        self.ex.add(tobool_term(s >= lo))
        self.ex.add(tobool_term(s <= hi))
        self.ex.model = None
        if is_sym(lo) or is_sym(hi):
            self.ex.ensure_model()
        return s

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        self._declare(name, v)
        return SymBool(v)

    def real(self, name, lo, hi, hi_open=False):
        name = self._name(name)
        v = z3.Real(name)
        self._declare(name, v)
        s = SymReal(v)
        self.ex.add(tobool_term(s >= lo))
        self.ex.add(tobool_term(s < hi if hi_open else s <= hi))
        self.ex.model = None
        return s

    def assume(self, cond):
        t = tobool_term(cond)
        t = simp(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathAbort()
        self.ex.add(t)
        self.ex.model = None
        if self.ex.pos >= len(self.ex.trace):
            self.ex.ensure_model()  # raises PathAbort when infeasible

    def check(self, cond, label, detail=None):
        self.checks += 1
        self.ex.st.checks += 1
        t = simp(tobool_term(cond))
        if z3.is_true(t):
            return
        if not z3.is_false(t):
            self.ex.st.check_queries += 1
            m = self.ex._feasible(z3.Not(t))
            if m is None:
                return
            self.ex.model = m
        else:
            self.ex.ensure_model()
        raise CheckFailed(label, detail)

    def assignment(self):
        self.ex.ensure_model()
        return {n: model_value(self.ex.model, v) for n, v in self.vars.items()}

    def value(self, x):
        """value of an observed output under the current model"""
        return sym_value(self.ex.model, x)


def tobool_term(c):
    t = tobool(c)
    if t is None:
        t = z3.BoolVal(bool(c))
    return t


def sym_value(m, x):
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return model_value(m, x.e)
    if isinstance(x, dict):
        return {sym_value(m, k): sym_value(m, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(sym_value(m, v) for v in x) if type(x) in (list, tuple) else [sym_value(m, v) for v in x]
    if type(x).__module__ == "numpy" and hasattr(x, "tolist"):
        return sym_value(m, x.tolist())
    return x


class ConcCtx(Ctx):
    def __init__(self, values, config, tier):
        super().__init__(config, tier)
        self.values = values
        self.missing = []

    def _get(self, name, default):
        if name in self.values:
            return self.values[name]
        self.missing.append(name)
        return default

    def int(self, name, lo, hi):
        name = self._name(name)
        if lo > hi:
            raise ValueError("empty range for %s" % name)
        if lo == hi:
            return int(lo)
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(self._name(name), False))

    def real(self, name, lo, hi, hi_open=False):
        return float(self._get(self._name(name), float(lo)))

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def check(self, cond, label, detail=None):
        self.checks += 1
        if not cond:
            raise CheckFailed(label, detail)

    def value(self, x):
        return sym_value(None, x)
