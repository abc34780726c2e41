"""The reference model: quantum mechanics on dense matrices, nothing else.

Qubit 0 is the leftmost tensor factor. Paulis are rows ``(x bits, z bits, sign)``
meaning ``(-1)^sign * prod_q P_q`` with ``P = X, Z`` or Hermitian ``Y``.
"""
from __future__ import annotations

from functools import lru_cache
from itertools import product

import numpy as np

I2 = np.eye(2, dtype=complex)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]])
PZ = np.diag([1, -1]).astype(complex)
HAD = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)
SG = np.diag([1, 1j])
ONE = {"I": I2, "X": PX, "Y": PY, "Z": PZ, "H": HAD, "S": SG}


def kron(*ms):
    out = np.eye(1, dtype=complex)
    for m in ms:
        out = np.kron(out, m)
    return out


@lru_cache(maxsize=None)
def gate1(name, q, n):
    return kron(*[ONE[name] if k == q else I2 for k in range(n)])


@lru_cache(maxsize=None)
def gate2(name, c, t, n):
    p0, p1 = np.diag([1, 0]).astype(complex), np.diag([0, 1]).astype(complex)
    u = {"CX": PX, "CZ": PZ}[name]
    return kron(*[p0 if k == c else I2 for k in range(n)]) + kron(
        *[p1 if k == c else (u if k == t else I2) for k in range(n)])


@lru_cache(maxsize=None)
def pauli(row):
    """Matrix of a tableau row (tuple of 2n+1 bits)."""
    n = len(row) // 2
    m = kron(*[ONE["IXZY"[row[q] + 2 * row[n + q]]] for q in range(n)])
    return -m if row[-1] else m


def all_rows(n, signs=(0, 1)):
    return [bits + (s,) for bits in product((0, 1), repeat=2 * n) for s in signs]


@lru_cache(maxsize=None)
def _paulis(n):
    rows = all_rows(n, (0,))
    return rows, np.array([pauli(r) for r in rows])


def row_of(m):
    """The tableau row whose matrix is ``m`` (must be a Hermitian Pauli)."""
    n = int(round(np.log2(len(m))))
    rows, mats = _paulis(n)
    c = np.einsum("kij,ji->k", mats, m) / len(m)
    k = int(np.argmax(abs(c)))
    assert abs(abs(c[k]) - 1) < 1e-9 and abs(c[k].imag) < 1e-9, "not a Pauli"
    return rows[k][:-1] + (0 if c[k].real > 0 else 1,)


@lru_cache(maxsize=None)
def conj(name, args, row):
    """Row of U P U^dagger for gate ``name`` on ``args`` (reference Heisenberg picture)."""
    n = len(row) // 2
    u = gate1(name, args[0], n) if len(args) == 1 else gate2(name, *args, n)
    return row_of(u @ pauli(row) @ u.conj().T)


def key(rho):
    """Hashable canonical form of a density matrix of a stabiliser state."""
    r = np.round(rho * 64).astype(complex)
    return r.real.astype(np.int16).tobytes() + r.imag.astype(np.int16).tobytes()


@lru_cache(maxsize=200000)
def rho_of_rows(rows):
    """Normalised projector on the common +1 eigenspace of the given rows (or None)."""
    d = 2 ** (len(rows[0]) // 2)
    rho = np.eye(d, dtype=complex)
    for r in rows:
        rho = rho @ (np.eye(d) + pauli(tuple(r))) / 2
    t = np.trace(rho).real
    return rho / t if t > 1e-9 else None


def zero(n):
    rho = np.zeros((2**n, 2**n), dtype=complex)
    rho[0, 0] = 1
    return rho


def symp(a, b):
    """0 if rows commute, 1 if they anticommute."""
    n = len(a) // 2
    return (sum(a[q] & b[n + q] for q in range(n)) + sum(a[n + q] & b[q] for q in range(n))) % 2


def rank2(rows):
    """GF(2) rank of bit rows."""
    piv = []
    for r in rows:
        v = int("".join(map(str, map(int, r))) or "0", 2)
        for p in piv:
            v = min(v, v ^ p)
        if v:
            piv.append(v)
    return len(piv)


def parse(s, n=None):
    """Reference parser: '+XIZ', '-X0Z2', 'Y' -> row. Independent of the package."""
    s = s.replace(" ", "").replace("_", "")
    sign = 0
    while s and s[0] in "+-":
        sign ^= s[0] == "-"
        s = s[1:]
    ops = {}
    if any(c.isdigit() for c in s):
        i = 0
        while i < len(s):
            j = i + 1
            while j < len(s) and s[j].isdigit():
                j += 1
            ops[int(s[i + 1:j])] = s[i]
            i = j
        n = n or max(ops) + 1
    else:
        ops = dict(enumerate(s))
        n = n or len(s)
    x = tuple(int(ops.get(q, "I") in "XY") for q in range(n))
    z = tuple(int(ops.get(q, "I") in "ZY") for q in range(n))
    return x + z + (int(sign),)


def show(row):
    n = len(row) // 2
    return "+-"[int(row[-1])] + "".join("IXZY"[int(row[q]) + 2 * int(row[n + q])] for q in range(n))


def tuples(tab):
    return tuple(tuple(int(b) for b in r) for r in np.asarray(tab))


def invariant(tab):
    """Tableau validity: shape, bits, symplectic relations. Returns '' or a complaint."""
    a = np.asarray(tab)
    if a.ndim != 2 or a.shape[0] % 2 or a.shape[1] != a.shape[0] + 1:
        return f"shape {a.shape}"
    if not np.isin(a, (0, 1)).all():
        return "entries other than 0/1"
    n = a.shape[0] // 2
    b = a[:, :-1].astype(int)
    lam = np.block([[np.zeros((n, n), int), np.eye(n, dtype=int)],
                    [np.eye(n, dtype=int), np.zeros((n, n), int)]])
    g = (b @ lam @ b.T) % 2
    if not np.array_equal(g, lam):
        return "rows do not have the commutation relations of destabilisers/stabilisers"
    return ""
