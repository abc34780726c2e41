"""Reference side of decoding: error sets as bit masks over syndrome bits.

An elementary error is ('X'|'Z', data qubit, round) or ('M', generator, round), as in
p14.reference; everything here is computed from the code's operators alone.
"""
from __future__ import annotations

import warnings
from math import inf

import numpy as np

from plaquette.syngraph import SyndromeGraph, SyndromeGraphManager

from . import codes as C


class Custom(SyndromeGraphManager):
    """A manager for a graph made elsewhere (custom managers are documented)."""

    def __init__(self, sgraph):
        self.sgraph = sgraph
        self.errordata = None


class Ref:
    def __init__(self, stabs, n, rounds, weight=None):
        self.stabs, self.n, self.rounds, self.ns = stabs, n, rounds, len(stabs)
        self.bits = rounds * self.ns
        ops = [("X", q, (1 << q, 0)) for q in range(n)] + [("Z", q, (0, 1 << q)) for q in range(n)]
        self.mask, self.weight = {}, {}
        for t in range(rounds):
            for k, q, o in ops:
                self.mask[k, q, t] = sum(1 << (t * self.ns + i) for i, s in enumerate(stabs) if C.anti(o, s))
        for t in range(1, rounds):
            for i in range(self.ns):
                self.mask["M", i, t] = 1 << (t * self.ns + i) | 1 << ((t - 1) * self.ns + i)
        for k in self.mask:
            self.weight[k] = 1.0 if weight is None else float(weight(k))
        # Connected components of what can happen
        parent = list(range(self.bits))

        def find(a):
            while parent[a] != a:
                parent[a] = parent[parent[a]]
                a = parent[a]
            return a
        open_ = set()
        for k, m in self.mask.items():
            if self.weight[k] == inf or not m:
                continue
            ends = [b for b in range(self.bits) if m >> b & 1]
            if len(ends) == 2:
                parent[find(ends[0])] = find(ends[1])
        for k, m in self.mask.items():
            if self.weight[k] != inf and m and m & (m - 1) == 0:
                open_.add(find(m.bit_length() - 1))
        comps = {}
        for b in range(self.bits):
            comps[find(b)] = comps.get(find(b), 0) | 1 << b
        self.closed = [m for r, m in comps.items() if r not in open_]
        self.solvable_all = not self.closed

    def solvable(self, syn):
        return not any(bin(syn & m).count("1") & 1 for m in self.closed)

    def array(self, syn, dtype=bool):
        return np.array([syn >> b & 1 for b in range(self.bits)]).reshape(self.rounds, self.ns).astype(dtype)

    def erasure(self, ers, dtype=bool):
        """ers: iterable of (round, qubit)"""
        a = np.zeros((self.rounds, self.n), dtype=dtype)
        for t, q in ers:
            a[t, q] = 1
        return a

    def syndrome(self, errors):
        s = 0
        for k in errors:
            s ^= self.mask[k]
        return s

    def operator(self, errors):
        x = z = 0
        for k in errors:
            if k[0] == "X":
                x ^= 1 << k[1]
            elif k[0] == "Z":
                z ^= 1 << k[1]
        return x, z

    def best(self, erased=()):
        """Least weight of an explanation of each syndrome (erased errors are free)."""
        cost = np.full(1 << self.bits, inf)
        cost[0] = 0
        idx = np.arange(1 << self.bits)
        er = set(erased)
        for k, m in self.mask.items():
            w = 0.0 if k[0] != "M" and (k[2], k[1]) in er else self.weight[k]
            if m and w != inf:
                cost = np.minimum(cost, cost[idx ^ m] + w)
        return cost


def selection(dec):
    """The errors the decoder settled on."""
    from .checks.p14 import key_of
    keys = getattr(dec, "_mc_keys", None)
    g = dec.synmgr.sgraph
    if keys is None or keys[0] is not g:
        keys = dec._mc_keys = (g, [key_of(e) for e in g.edges])
    return [k for k, e in zip(keys[1], g.edges) if e.decoder_result]


def quiet_build(cls, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cls(*a, **kw)


def on_graph(cls, rows, rounds, weights=None):
    """A decoder for generators given as rows, without a code."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cls(Custom(SyndromeGraph(rounds, rows, weights)))
