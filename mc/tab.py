"""Tableau helpers shared by the checks: reference gate action on rows, state keys."""
from functools import lru_cache
from itertools import permutations

import numpy as np

from plaquette import pauli as P

from . import dense as D

G1 = ("X", "Y", "Z", "H", "S")
G2 = ("CX", "CZ")


def ref_row(name, args, row):
    """Reference conjugation of one row, any n: dense algebra on the touched qubits."""
    n = len(row) // 2
    k = len(args)
    loc = tuple(row[q] for q in args) + tuple(row[n + q] for q in args) + (row[-1],)
    new = D.conj(name, tuple(range(k)), loc)
    row = list(row)
    for i, q in enumerate(args):
        row[q], row[n + q] = new[i], new[k + i]
    row[-1] = new[-1]
    return tuple(row)


def ref_tab(name, args, tab):
    return tuple(ref_row(name, args, r) for r in tab)


def impl_gate(name, args, arr):
    """The package's gate functions. ``args`` is a flat tuple of qubit indices."""
    if name in G1:
        f = {"X": P.x, "Y": P.y, "Z": P.z, "H": P.hadamard, "S": P.phase_gate}[name]
        return f(arr, args[0] if len(args) == 1 else list(args))
    f = {"CX": P.cx, "CZ": P.cz}[name]
    if len(args) == 2:
        return f(arr, args[0], args[1])
    return f(arr, list(args[::2]), list(args[1::2]))


def gates(n):
    return [(g, (q,)) for g in G1 for q in range(n)] + [
        (g, p) for g in G2 for p in permutations(range(n), 2)]


def arr(tab):
    return np.array(tab, dtype="u1")


@lru_cache(maxsize=500000)
def stab_key(tab):
    """Canonical key of the state stabilised by the tableau's stabiliser rows (n <= 4)."""
    n = len(tab) // 2
    rho = D.rho_of_rows(tab[n:])
    return None if rho is None else D.key(rho)


@lru_cache(maxsize=None)
def closure(n, limit=None, depth=None, names=("H", "S", "CX", "X")):
    """Reference BFS over complete tableaux from |0..0>. Returns {tab: depth}."""
    start = D.tuples(P.zero_state(n))
    seen = {start: 0}
    frontier = [start]
    gs = [g for g in gates(n) if g[0] in names]
    d = 0
    while frontier and (depth is None or d < depth):
        d += 1
        nxt = []
        for t in frontier:
            for name, args in gs:
                u = ref_tab(name, args, t)
                if u not in seen:
                    seen[u] = d
                    nxt.append(u)
                    if limit and len(seen) >= limit:
                        return seen
        frontier = nxt
    return seen


@lru_cache(maxsize=None)
def states(n):
    """One tableau per stabiliser state of n qubits (6, 60, 1080), BFS order."""
    start = D.tuples(P.zero_state(n))
    seen = {stab_key(start): start}
    frontier = [start]
    gs = [g for g in gates(n) if g[0] in ("H", "S", "CX", "X")]
    while frontier:
        nxt = []
        for t in frontier:
            for name, args in gs:
                u = ref_tab(name, args, t)
                k = stab_key(u)
                if k not in seen:
                    seen[k] = u
                    nxt.append(u)
        frontier = nxt
    return list(seen.values())


def group_tableaux(n):
    """Number of complete tableaux reachable by Clifford gates: |Sp(2n,2)| * 4^n."""
    c = 4**n
    for k in range(1, n + 1):
        c *= (4**k - 1) * 2 ** (2 * k - 1)
    return c
