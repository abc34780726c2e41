"""Reference helpers about stabiliser codes: symplectic algebra on Python integers.

An operator is a pair of bit masks (x, z); bit q is data qubit q. Signs are not tracked.
"""
from __future__ import annotations

from functools import lru_cache
from itertools import combinations, product

from plaquette.codes import LatticeCode, latticeinstances

MAKE = {
    "planar": lambda d, r: LatticeCode.make_planar(n_rounds=r, size=d),
    "rotated": lambda d, r: LatticeCode.make_rotated_planar(n_rounds=r, size=d),
    "xzzx": lambda d, r: LatticeCode.make_rotated_planar(n_rounds=r, size=d, xzzx=True),
    "toric": lambda d, r: LatticeCode.make_toric(n_rounds=r, size=d),
    "repetition": lambda d, r: LatticeCode.make_repetition(n_rounds=r, size=d),
    "five": lambda d, r: LatticeCode.make_five_qubit(n_rounds=r),
    "shor": lambda d, r: LatticeCode.make_shor(n_rounds=r),
}
# (data qubits, generators, logical qubits, distance against X errors, against Z errors, any)
PARAMS = {
    "planar": lambda d: (d * d + (d - 1) ** 2, 2 * d * (d - 1), 1, d, d, d),
    "rotated": lambda d: (d * d, d * d - 1, 1, d, d, d),
    "xzzx": lambda d: (d * d, d * d - 1, 1, None, None, d),
    "toric": lambda d: (2 * d * d, 2 * d * d, 2, d, d, d),
    "repetition": lambda d: (d, d - 1, 1, d, 1, 1),
    "five": lambda d: (5, 4, 1, None, None, 3),
    "shor": lambda d: (9, 8, 1, 3, 3, 3),
}
LATTICE = {
    "planar": latticeinstances.PlanarCodeLattice,
    "rotated": latticeinstances.RotatedPlanarCodeLattice,
    "xzzx": lambda d, **k: latticeinstances.RotatedPlanarCodeLattice(d, True, **k),
    "toric": latticeinstances.ToricCodeLattice,
}


def make(fam, d, rounds=1):
    return MAKE[fam](d, rounds)


def op(row):
    """(x, z) masks of a tableau row."""
    n = len(row) // 2
    return (sum(1 << q for q in range(n) if row[q]), sum(1 << q for q in range(n) if row[n + q]))


def vertex_op(v):
    """The operator a lattice vertex stands for, from its edges alone."""
    x = z = 0
    for e in v.edges:
        b = 1 << e.data.dataqubit_idx
        f = e.factor.name
        x ^= b if f in "XY" else 0
        z ^= b if f in "ZY" else 0
    return x, z


def anti(a, b):
    return (bin(a[0] & b[1]).count("1") + bin(a[1] & b[0]).count("1")) & 1


def weight(a):
    return bin(a[0] | a[1]).count("1")


def vec(a, n):
    return a[0] | a[1] << n


def reduce_basis(vs):
    """Echelon basis {leading bit: vector}."""
    basis = {}
    for v in vs:
        v = residue(v, basis)
        if v:
            basis[v.bit_length() - 1] = v
    return basis


def residue(v, basis):
    while v:
        h = v.bit_length() - 1
        if h not in basis:
            # Keep reducing lower bits is not needed to decide membership
            return v
        v ^= basis[h]
    return 0


def rank(ops, n):
    return len(reduce_basis(vec(o, n) for o in ops))


def in_span(o, basis, n):
    return residue(vec(o, n), basis) == 0


def paulis(n, w, kinds):
    """All operators of weight w using the given single-qubit kinds ('X', 'Z', 'XYZ')."""
    one = [(k in "XY", k in "ZY") for k in kinds]
    for qs in combinations(range(n), w):
        for ks in product(one, repeat=w):
            x = z = 0
            for q, (a, b) in zip(qs, ks):
                x |= a << q
                z |= b << q
            yield x, z


def syndrome_masks(stabs, n):
    """For each qubit and kind, the bit mask of generators it flips."""
    return {k: [sum(anti(o, s) << i for i, s in enumerate(stabs))
                for o in ((((1 << q) if k in "XY" else 0), ((1 << q) if k in "ZY" else 0)) for q in range(n))]
            for k in "XYZ"}


def distance(stabs, logs, n, kinds, upto):
    """Smallest weight <= upto of an undetected operator acting on the logical qubits.

    Returns (weight or None, number of operators examined)."""
    sm = syndrome_masks(stabs, n)
    lm = syndrome_masks(logs, n)
    seen = 0
    for w in range(1, upto + 1):
        for qs in combinations(range(n), w):
            # Prefix-free enumeration; fine for the sizes used here
            for ks in product(kinds, repeat=w):
                seen += 1
                s = 0
                for q, k in zip(qs, ks):
                    s ^= sm[k][q]
                if s == 0:
                    t = 0
                    for q, k in zip(qs, ks):
                        t ^= lm[k][q]
                    if t:
                        return w, seen
    return None, seen


@lru_cache(maxsize=None)
def sized(tier):
    t = tier == "thorough"
    return ([("repetition", d) for d in (3, 5, 7, 9) + ((11, 13, 15) if t else ())]
            + [("planar", d) for d in (2, 3, 4, 5) + ((6, 7) if t else ())]
            + [("rotated", d) for d in (2, 3, 4, 5, 6) + ((7, 8) if t else ())]
            + [("xzzx", d) for d in (2, 3, 4, 5, 6) + ((7, 8) if t else ())]
            + [("toric", d) for d in (2, 3, 4) + ((5, 6) if t else ())]
            + [("five", 5), ("shor", 9)])


def logical_indices(logical_ops):
    """The documented meaning of a choice of logical operators: a letter per logical qubit, or indices."""
    if isinstance(logical_ops, str):
        return [2 * i + "XZ".index(c) for i, c in enumerate(logical_ops)]
    return [int(i) for i in logical_ops]
