"""Random number generators as arbitrary draws: every value a generator may
return is explored (choices are forked, reals are symbolic)."""
import contextlib
import itertools
import random
import numpy as np
from .stubs import patched


class Rand:
    """stands in for numpy.random (module or Generator) and random; draws are recorded"""

    def __init__(self, ctx, name="draw", max_draws=200):
        self.ctx, self.name, self.n, self.max = ctx, name, 0, max_draws
        self.draws = []

    def _nm(self):
        self.n += 1
        if self.n > self.max:
            raise AssertionError("too many random draws")
        return f"{self.name}{self.n - 1}"

    def _index(self, k, weights=None):
        opts = list(range(k))
        if weights is not None:
            opts = [i for i, w in zip(opts, weights) if not (isinstance(w, (int, float, np.floating, np.integer)) and w <= 0)]
        assert opts, "nothing to draw from"
        return opts[0] if len(opts) == 1 else self.ctx.choice(self._nm(), opts)

    def _shape(self, size, one):
        if size is None:
            return one()
        if isinstance(size, (int, np.integer)) or not isinstance(size, (tuple, list)):
            return np.array([one() for _ in range(int(size))])
        n = int(np.prod(size))
        return np.array([one() for _ in range(n)]).reshape(size)

    # reals
    def _unit(self):
        r = self.ctx.real(self._nm(), 0, 1)
        self.ctx.assume(r < 1)
        self.draws.append(("unit", r))
        return r

    def random(self, size=None):
        return self._shape(size, self._unit)

    rand = random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        if (low, high) == (0, 1):
            return self._shape(size, self._unit)
        return self._shape(size, lambda: low + self._unit() * (high - low))

    # integers
    def integers(self, low, high=None, size=None, endpoint=False, **kw):
        if high is None:
            low, high = 0, low
        if endpoint:
            high += 1
        return self._shape(size, lambda: int(low) + self._index(int(high) - int(low)))

    def np_randint(self, low, high=None, size=None, **kw):
        return self.integers(low, high, size)

    def py_randint(self, a, b):
        return a + self._index(b - a + 1)

    def randrange(self, a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        return r[self._index(len(r))]

    def getrandbits(self, k):
        return self._index(2 ** k)

    # choices
    def np_choice(self, a, size=None, replace=True, p=None, **kw):
        if isinstance(a, (int, np.integer)):
            a = list(range(int(a)))
        arr = a if isinstance(a, np.ndarray) else np.asarray(a)
        n = len(a)
        w = list(p) if p is not None else None
        if size is None:
            i = self._index(n, w)
            self.draws.append(("choice", list(a), w, i))
            return arr[i]
        k = int(np.prod(size))
        if replace:
            idx = [self._index(n, w) for _ in range(k)]
        else:
            if k > n:
                raise ValueError("Cannot take a larger sample than population when replace is False")
            combos = list(itertools.combinations(range(n), k)) if k < n else [tuple(range(n))]
            idx = list(combos[self._index(len(combos))])
        self.draws.append(("choice", list(a), w, idx))
        out = arr[np.array(idx, dtype=int)] if k else arr[:0]
        return out if isinstance(size, (int, np.integer)) else out.reshape(size)

    choice = np_choice

    def py_choice(self, seq):
        return seq[self._index(len(seq))]

    def py_choices(self, population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        if weights is None and cum_weights is not None:
            weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        idx = [self._index(len(pop), None if weights is None else list(weights)) for _ in range(k)]
        self.draws.append(("choices", pop, None if weights is None else list(weights), idx))
        return [pop[i] for i in idx]

    def py_sample(self, population, k, **kw):
        pop = list(population)
        if k > len(pop):
            raise ValueError("Sample larger than population or is negative")
        combos = list(itertools.combinations(range(len(pop)), k))
        idx = combos[self._index(len(combos))]
        self.draws.append(("sample", pop, None, list(idx)))
        return [pop[i] for i in idx]

    def permutation(self, x):
        xs = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        ps = list(itertools.permutations(range(len(xs))))
        return np.array([xs[i] for i in ps[self._index(len(ps))]])

    def shuffle(self, x):
        xs = list(x)
        ps = list(itertools.permutations(range(len(xs))))
        x[:] = [xs[i] for i in ps[self._index(len(ps))]]

    def binomial(self, n, p, size=None):
        def one():
            k = self.ctx.int(self._nm(), 0, None)
            self.ctx.assume(k <= n)
            if isinstance(p, (int, float)) and p <= 0:
                self.ctx.assume(k == 0)
            if isinstance(p, (int, float)) and p >= 1:
                self.ctx.assume(k == n)
            self.draws.append(("binomial", n, p, k))
            return k
        return self._shape(size, one)

    def seed(self, *a, **k):
        pass

    def __deepcopy__(self, memo):
        return self

    def patches(self):
        r = np.random
        out = [(r, n, getattr(self, m)) for n, m in [("choice", "np_choice"), ("randint", "np_randint"), ("random", "random"), ("rand", "random"),
               ("random_sample", "random"), ("uniform", "uniform"), ("permutation", "permutation"), ("shuffle", "shuffle"),
               ("binomial", "binomial"), ("seed", "seed")]]
        out += [(r, "default_rng", lambda *a, **k: self), (r, "RandomState", lambda *a, **k: self)]
        out += [(random, n, getattr(self, m)) for n, m in [("choice", "py_choice"), ("choices", "py_choices"), ("sample", "py_sample"), ("randint", "py_randint"),
                ("randrange", "randrange"), ("random", "random"), ("uniform", "uniform"), ("shuffle", "shuffle"), ("getrandbits", "getrandbits"), ("seed", "seed")]]
        return out

    @contextlib.contextmanager
    def installed(self):
        with patched(*self.patches()):
            yield self
