"""Exhaustive exploration of the code's random choices.

``explore(run)`` executes ``run()`` once for every combination of answers the random
number generator can give. ``plaquette.rng`` and ``numpy.random.default_rng`` are both
replaced while it runs, so no other generator is reachable.

A uniform draw is represented by an interval: each comparison with a threshold splits
the interval and becomes one branching point, so *every* outcome of ``random() < p``
is taken, with its exact probability, whatever ``p`` is. ``integers`` and ``choice``
branch over their finite ranges.
"""
from __future__ import annotations

import math

import numpy as np

from .core import HarnessError

EPS = 1e-12


class Divergence(Exception):
    """Replaying a prefix met a different choice: the run is not a function of rng."""


class Tree:
    def __init__(self, limit=200000):
        self.path = []  # [index, weights]
        self.pos = 0
        self.limit = limit
        self.prob = 1.0

    def branch(self, weights):
        weights = tuple(float(w) for w in weights)
        if self.pos < len(self.path):
            idx, w = self.path[self.pos]
            if len(w) != len(weights) or any(abs(a - b) > 1e-9 for a, b in zip(w, weights)):
                raise Divergence(
                    f"choice {self.pos}: weights {weights} now, {w} on the earlier run")
        else:
            idx = next(i for i, x in enumerate(weights) if x > EPS)
            self.path.append([idx, weights])
        self.pos += 1
        self.prob *= weights[idx]
        return idx

    def advance(self):
        while self.path:
            idx, w = self.path[-1]
            nxt = next((i for i in range(idx + 1, len(w)) if w[i] > EPS), None)
            if nxt is not None:
                self.path[-1][0] = nxt
                return True
            self.path.pop()
        return False


class Uniform:
    """A lazily decided draw from [lo, hi), scaled as ``a * u + b``."""

    __array_ufunc__ = None
    __slots__ = ("cell", "a", "b")

    def __init__(self, cell, a=1.0, b=0.0):
        self.cell, self.a, self.b = cell, a, b

    def _below(self, c):
        """Decide whether a*u+b < c."""
        c = float(c)
        if self.a == 0:
            return self.b < c
        t = (c - self.b) / self.a
        tree, lo, hi = self.cell
        if t <= lo:
            below = False
        elif t >= hi:
            below = True
        else:
            pl = (t - lo) / (hi - lo)
            below = tree.branch((pl, 1 - pl)) == 0
            if below:
                self.cell[2] = t
            else:
                self.cell[1] = t
        return below if self.a > 0 else not below

    def __lt__(self, c):
        return self._below(c)

    __le__ = __lt__

    def __gt__(self, c):
        return not self._below(c)

    __ge__ = __gt__

    def __mul__(self, c):
        return Uniform(self.cell, self.a * float(c), self.b * float(c))

    __rmul__ = __mul__

    def __truediv__(self, c):
        return self * (1 / c)

    def __add__(self, c):
        return Uniform(self.cell, self.a, self.b + float(c))

    __radd__ = __add__

    def __sub__(self, c):
        return self + (-c)

    def __rsub__(self, c):
        return Uniform(self.cell, -self.a, c - self.b)

    def __floor__(self):
        tree, lo, hi = self.cell
        x, y = sorted((self.a * lo + self.b, self.a * hi + self.b))
        for k in range(math.floor(x) + 1, math.ceil(y)):
            if self._below(k):
                return k - 1
        return math.ceil(y) - 1

    def __int__(self):
        return self.__floor__()

    __trunc__ = __floor__

    def __float__(self):
        # Fallback when the code wants a number: split into 64 equal cells (exact for
        # thresholds that are multiples of 1/64).
        tree, lo, hi = self.cell
        edges = sorted({lo, hi, *(k / 64 for k in range(65) if lo < k / 64 < hi)})
        w = [(q - p) / (hi - lo) for p, q in zip(edges, edges[1:])]
        k = tree.branch(w)
        self.cell[1], self.cell[2] = edges[k], edges[k + 1]
        return self.a * (edges[k] + edges[k + 1]) / 2 + self.b

    def __bool__(self):
        return True


class Rng:
    """Stand-in for :class:`numpy.random.Generator` whose answers come from a Tree."""

    def __init__(self, tree):
        self.tree = tree
        self.draws = 0

    def _fill(self, size, one, dtype=None):
        self.draws += 1
        if size is None:
            return one()
        shape = (size,) if np.isscalar(size) else tuple(size)
        out = np.empty(shape, dtype=object if dtype is None else dtype)
        for i in np.ndindex(*shape):
            out[i] = one()
        return out

    def random(self, size=None, dtype=None, out=None):
        return self._fill(size, lambda: Uniform([self.tree, 0.0, 1.0]))

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(
            size, lambda: Uniform([self.tree, 0.0, 1.0], float(high) - float(low), float(low)))

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low) + (1 if endpoint else 0)
        if n <= 0:
            raise ValueError("low >= high")
        if n > 1024:  # a seed: its value must not matter
            return self._fill(size, lambda: np.int64(low), dtype)
        return self._fill(
            size, lambda: np.int64(low + self.tree.branch([1 / n] * n)), dtype)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if isinstance(a, (int, np.integer)):
            a = np.arange(a)
        else:
            a = np.asarray(a)
        n = len(a)
        if p is None:
            w = [1 / n] * n
        else:
            w = np.asarray(p, dtype=float)
            if w.shape != (n,):
                raise ValueError("'a' and 'p' must have same size")
            if (w < 0).any():
                raise ValueError("probabilities are not non-negative")
            if abs(w.sum() - 1) > 1e-8:
                raise ValueError("probabilities do not sum to 1")
        if not replace and size not in (None, 1):
            raise HarnessError("choice without replacement is not modelled")
        return self._fill(size, lambda: a[self.tree.branch(w)], a.dtype)

    def binomial(self, n, p, size=None):
        if n != 1:
            raise HarnessError("binomial n>1 not modelled")
        return self._fill(size, lambda: np.int64(self.tree.branch([1 - p, p])))

    def permutation(self, x):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        rest, out = list(range(len(x))), []
        while rest:
            out.append(rest.pop(self.tree.branch([1 / len(rest)] * len(rest))))
        return x[out]

    def multinomial(self, n, pvals, size=None):
        if n != 1:
            raise HarnessError("multinomial n>1 not modelled")

        def one():
            r = np.zeros(len(pvals), dtype=int)
            r[self.tree.branch(pvals)] = 1
            return r
        if size is not None:
            raise HarnessError("multinomial size not modelled")
        return one()

    def __getattr__(self, name):
        raise HarnessError(f"rng.{name} is not modelled by the explorer")


def explore(run, limit=200000):
    """Yield ``(probability, result)`` for every execution of ``run``."""
    import plaquette

    tree = Tree(limit)
    real, real_default = plaquette.rng, np.random.default_rng
    n = 0
    try:
        while True:
            tree.pos, tree.prob = 0, 1.0
            rng = Rng(tree)
            plaquette.rng = rng
            np.random.default_rng = lambda *a, **k: rng
            result = run()
            if tree.pos != len(tree.path):
                raise Divergence("a replayed run made fewer choices than the earlier one")
            yield tree.prob, result
            n += 1
            if n > limit:
                raise HarnessError("choice tree larger than its limit")
            if not tree.advance():
                return
    finally:
        plaquette.rng, np.random.default_rng = real, real_default


def distribution(run, limit=200000):
    """``{result: probability}`` plus the number of executions."""
    out, n = {}, 0
    for p, r in explore(run, limit):
        out[r] = out.get(r, 0.0) + p
        n += 1
    return out, n


def same_distribution(a, b, tol=1e-9):
    return all(abs(a.get(k, 0) - b.get(k, 0)) < tol for k in a.keys() | b.keys())
