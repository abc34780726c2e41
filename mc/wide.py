"""Reference for large registers: Pauli rows as pairs of integers, signs by counting.

A row is ``(x, z, s)``: bit q of the integers is qubit q; it means (-1)^s prod_q P_q with
Hermitian Y. ``selftest`` compares everything here with dense matrices for two qubits.
"""
from __future__ import annotations

from functools import lru_cache

import numpy as np

from . import dense as D

SIZES = (9, 17, 33, 66, 130, 260)


def ones(v):
    return v.bit_count()


def row_of(a):
    """From a tableau row (sequence of 2n+1 bits)."""
    a = [int(v) for v in a]
    n = len(a) // 2
    return sum(v << q for q, v in enumerate(a[:n])), sum(v << q for q, v in enumerate(a[n:2 * n])), a[-1]


def bits(r, n):
    x, z, s = r
    return [x >> q & 1 for q in range(n)] + [z >> q & 1 for q in range(n)] + [s]


def array(rows, n):
    return np.array([bits(r, n) for r in rows], dtype="u1")


def rows_of(arr):
    """All rows of a tableau array."""
    a = np.asarray(arr)
    n = a.shape[1] // 2
    if a.max(initial=0) > 1:
        raise ValueError("entries other than 0 and 1")

    def ints(m):
        return [int.from_bytes(np.packbits(r, bitorder="little").tobytes(), "little") for r in m.astype("u1")]
    return list(zip(ints(a[:, :n]), ints(a[:, n:2 * n]), [int(v) for v in a[:, -1]]))


def symp(a, b):
    return (ones(a[0] & b[1]) + ones(a[1] & b[0])) & 1


def mul(a, b):
    """(x, z) of the product and its phase as a power of i."""
    x, z = a[0] ^ b[0], a[1] ^ b[1]
    e = ones(a[0] & a[1]) + ones(b[0] & b[1]) + 2 * (ones(a[1] & b[0]) + a[2] + b[2]) - ones(x & z)
    return (x, z), e % 4


def prod(a, b):
    """The product of two commuting rows."""
    (x, z), e = mul(a, b)
    assert e % 2 == 0
    return x, z, e // 2


def gate(name, args, r):
    x, z, s = r
    if len(args) == 1:
        m = 1 << args[0]
        a, b = bool(x & m), bool(z & m)
        if name == "X":
            s ^= b
        elif name == "Z":
            s ^= a
        elif name == "Y":
            s ^= a ^ b
        elif name == "H":
            s ^= a & b
            if a != b:
                x, z = x ^ m, z ^ m
        elif name == "S":
            s ^= a & b
            z ^= m * a
        return x, z, int(s)
    c, t = 1 << args[0], 1 << args[1]
    xc, zc, xt, zt = bool(x & c), bool(z & c), bool(x & t), bool(z & t)
    if name == "CX":
        s ^= xc and zt and (xt == zc)
        return x ^ t * xc, z ^ c * zt, int(s)
    s ^= xc and xt and (zc != zt)
    return x, z ^ c * xt ^ t * xc, int(s)


def gates(name, args, rows):
    """One call: on every qubit of a list, or on consecutive pairs."""
    step = 2 if name in ("CX", "CZ") else 1
    for i in range(0, len(args), step):
        rows = [gate(name, args[i:i + step], r) for r in rows]
    return rows


def zero(n):
    return [(1 << q, 0, 0) for q in range(n)] + [(0, 1 << q, 0) for q in range(n)]


def echelon(rows):
    """Canonical generators of the group of commuting independent rows (or None if dependent)."""
    rows, out = list(rows), []
    n = max((max(r[0], r[1]).bit_length() for r in rows), default=0)
    for part in (0, 1):
        for q in range(n):
            k = next((i for i, r in enumerate(rows) if r[part] >> q & 1), None)
            if k is None:
                continue
            p = rows.pop(k)
            rows = [prod(p, r) if r[part] >> q & 1 else r for r in rows]
            out = [prod(p, r) if r[part] >> q & 1 else r for r in out] + [p]
    if rows:
        return None
    return sorted(out)


def echelon_dep(rows):
    """As echelon, of rows that may depend on each other; None if they contradict each other."""
    rows, out = list(rows), []
    n = max((max(r[0], r[1]).bit_length() for r in rows), default=0)
    for part in (0, 1):
        for q in range(n):
            k = next((i for i, r in enumerate(rows) if r[part] >> q & 1), None)
            if k is None:
                continue
            p = rows.pop(k)
            rows = [prod(p, r) if r[part] >> q & 1 else r for r in rows]
            out = [prod(p, r) if r[part] >> q & 1 else r for r in out] + [p]
    return None if any(r[2] for r in rows) else sorted(out)


def echelon_or(rows, op):
    """The group of the rows and one operator more."""
    return echelon_dep([*rows, op])


def valid(rows):
    """Complaint about a tableau (destabilisers, then stabilisers), or ''."""
    n = len(rows) // 2
    dx = np.array([[r[0] >> q & 1 for q in range(n)] for r in rows], dtype=np.int64)
    dz = np.array([[r[1] >> q & 1 for q in range(n)] for r in rows], dtype=np.int64)
    m = (dx @ dz.T + dz @ dx.T) % 2
    want = np.zeros((2 * n, 2 * n), dtype=np.int64)
    want[:n, n:] = want[n:, :n] = np.eye(n, dtype=np.int64)
    if not np.array_equal(m[n:, n:], want[n:, n:]):
        return "stabilisers do not commute"
    if not np.array_equal(m[:n, n:], want[:n, n:]):
        return "destabilisers do not pair with stabilisers"
    if not np.array_equal(m, want):
        return "destabilisers do not commute"
    return ""


def sign_in(stabs, destabs, op):
    """None if the outcome of measuring op is random, else the outcome (0 or 1)."""
    if any(symp(g, op) for g in stabs):
        return None
    acc = (0, 0, 0)
    for g, d in zip(stabs, destabs):
        if symp(d, op):
            acc = prod(acc, g)
    assert acc[:2] == op[:2]
    return acc[2] ^ op[2]


def measured(stabs, op, m):
    """The group after outcome m of a random measurement."""
    k = next(i for i, g in enumerate(stabs) if symp(g, op))
    p = stabs[k]
    return [prod(g, p) if symp(g, op) else g for i, g in enumerate(stabs) if i != k] + [(op[0], op[1], op[2] ^ m)]


def project(rows, op, m):
    """The tableau after outcome m, and None; or the same tableau and the only possible outcome."""
    n = len(rows) // 2
    k = next((i for i in range(n, 2 * n) if symp(rows[i], op)), None)
    if k is None:
        return rows, sign_in(rows[n:], rows[:n], op)
    p = rows[k]
    out = [hermitian(r, p) if symp(r, op) and i != k else r for i, r in enumerate(rows)]
    out[k - n], out[k] = p, (op[0], op[1], op[2] ^ m)
    return out, None


def hermitian(a, b):
    """The product up to a factor i (signs of destabilisers mean nothing)."""
    (x, z), e = mul(a, b)
    return x, z, e // 2


def records(gates_, n):
    """{(measurements, erasures, generators or None): probability} of a circuit on n qubits.

    The final state is given unless something happened which no record shows.
    """
    hidden = False
    # (probability, measurements, erasures, (in block, something happened, last happened), tableau)
    live = [(1.0, (), (), (False, False, False), zero(n))]

    def paulis(p, q, rows):
        for c in p:
            if c != "I":
                rows = gates(c, (q,), rows)
        return rows

    def do(name, a, br):
        p, m, e, c, rows = br
        if name == "M":
            out = [(p, m, rows)]
            for q in a:
                nxt = []
                for p_, m_, r_ in out:
                    op = (0, 1 << q, 0)
                    r0, v = project(r_, op, 0)
                    if v is None:
                        nxt += [(p_ / 2, m_ + (0,), r0), (p_ / 2, m_ + (1,), project(r_, op, 1)[0])]
                    else:
                        nxt.append((p_, m_ + (v,), r0))
                out = nxt
            return [(p_, m_, e, c, r_) for p_, m_, r_ in out]
        if name == "R":
            out = [(p, rows)]
            for q in a:
                nxt = []
                for p_, r_ in out:
                    op = (0, 1 << q, 0)
                    r0, v = project(r_, op, 0)
                    if v is None:
                        nxt += [(p_ / 2, r0), (p_ / 2, gates("X", (q,), project(r_, op, 1)[0]))]
                    else:
                        nxt.append((p_, gates("X", (q,), r0) if v else r0))
                out = nxt
            return [(p_, m, e, c, r_) for p_, r_ in out]
        if name == "E_PAULI":
            opts = [(1 - sum(a[:3]), "I"), *zip(a[:3], "XYZ")]
            return [(p * w, m, e, c, paulis(x, a[3], rows)) for w, x in opts if w > 1e-12]
        if name == "DEPOLARIZE":
            out = [(p, rows)]
            for q in a:
                out = [(p_ / 3, paulis(x, q, r_)) for p_, r_ in out for x in "XYZ"]
            return [(p_, m, e, c, r_) for p_, r_ in out]
        if name == "E_ERASE":
            w, q = a
            return ([(p * (1 - w), m, e + (False,), c, rows)] if w < 1 else []) + [
                (p * w / 4, m, e + (True,), c, paulis(x, q, rows)) for x in "IXYZ" if w > 0]
        return [(p, m, e, c, gates(name, a, rows))]

    for name, a in gates_:
        nxt = []
        if name in ("R", "DEPOLARIZE", "E_PAULI", "E_ERASE", "ERROR"):
            hidden = True
        for br in live:
            p, m, e, (inside, any_, now), rows = br
            if not name.startswith("ERROR"):
                nxt += do(name, a, (p, m, e, (False,) * 3, rows))
                continue
            if name == "ERROR":
                opts = [(a[0], (True, True, True), True), (1 - a[0], (True, False, False), False)]
            elif name == "ERROR_CONTINUE":
                opts = [(1.0, (True, any_, now), now)]
            elif any_:
                opts = [(1.0, (True, True, False), False)]
            else:
                opts = [(a[0], (True, True, True), True), (1 - a[0], (True, False, False), False)]
            g = a if name == "ERROR_CONTINUE" else a[1:]
            for w, c, yes in opts:
                if w > 1e-12:
                    b = (p * w, m, e, c, rows)
                    nxt += do(g[0], g[1:], b) if yes else [b]
        live = nxt
    out = {}
    for p, m, e, _, rows in live:
        k = (m, e, None if hidden else tuple(echelon(rows[n:])))
        out[k] = out.get(k, 0.0) + p
    return out


# ----------------------------------------------------------------------- circuits
def scramble(n, length, seed=1):
    """A fixed succession of gates in which every gate meets near and far qubits."""
    out, v = [], 12345 + 977 * seed + n
    names = ("H", "S", "CX", "X", "CZ", "H", "Y", "CX", "Z", "S")
    for i in range(length):
        v = (v * 1103515245 + 12345) % (1 << 31)
        a = (v >> 8) % n
        b = (a + 1 + (v >> 16) % (n - 1)) % n
        g = names[(v >> 4) % len(names)]
        out.append((g, (a, b) if g[0] == "C" else (a,)))
    return out


def family(n, which):
    if which == "ghz":
        return [("H", (0,))] + [("CX", (q, q + 1)) for q in range(n - 1)] + [("X", (n - 1,)), ("S", (n // 2,))]
    if which == "star":
        return [("H", (n - 1,))] + [("CX", (n - 1, q)) for q in range(n - 1)] + [("S", (q,)) for q in range(0, n, 2)]
    if which == "cluster":
        return [("H", (q,)) for q in range(n)] + [("CZ", (q, (q + 1) % n)) for q in range(n)] + [("S", (q,)) for q in range(0, n, 3)] + [("Z", (q,)) for q in range(0, n, 5)]
    if which == "dense":  # generators with X and with Z on (nearly) every qubit
        return ([("CX", (q, 1)) for q in range(2, n)] + [("H", (0,))] + [("CX", (0, q)) for q in range(1, n)]
                + [("H", (n - 1,)), ("CX", (n // 2, n - 1))])
    if which == "flips":
        return [("X", (q,)) for q in range(n)] + [("H", (q,)) for q in range(n)] + [("S", (q,)) for q in range(n)]
    return scramble(n, 4 * n, 1)


def circuits(n, which, stim=False):
    """Whole circuits on n qubits with few random choices (no ERROR blocks for stim)."""
    pre = [(g, a) for g, a in family(n, which) if g != "S"]
    a, b, c, d = 0, n // 2, n - 1, n - 2
    dense = [("CZ", tuple(x for q in range(0, n - 1, 2) for x in (q, q + 1))), ("H", tuple(range(0, n, 3)))]
    out = [
        pre + [("M", (c, a, b)), ("X", (b, c)), ("M", (b, d, c, a))],
        pre + dense + [("M", (a,)), ("Y", (a, c)), ("CX", (a, c, d, b)), ("M", (c, a))],
        pre + [("X", tuple(range(0, n, 2)))] + [(g, q) for g, q in reversed(pre)] + [("M", tuple(range(n)))],
        pre + [("R", (c, b)), ("H", (c,)), ("CX", (c, a, c, d)), ("M", (d, c, b, a))],
        pre + [("E_ERASE", (0.5, d)), ("M", (d,)), ("E_ERASE", (1.0, a)), ("E_PAULI", (0.1, 0.2, 0.4, b)), ("M", (b, a))],
        [("X", tuple(range(1, n, 3))), ("E_PAULI2", ())] + [("M", tuple(range(n - 1, -1, -1)))],
    ]
    out[5][1] = ("E_ERASE", (0.0, c))
    if not stim:
        out.append(pre + [("ERROR", (0.3, "X", c)), ("ERROR_CONTINUE", ("CX", a, c)), ("ERROR_ELSE", (0.5, "Z", b)),
                          ("ERROR_ELSE", (1.0, "H", d)), ("M", (c, b, d))])
    return out


FAMILIES = ("ghz", "star", "cluster", "flips", "scramble")
CIRCUIT_FAMILIES = FAMILIES + ("dense",)


@lru_cache(maxsize=64)
def tableau(n, which):
    rows = zero(n)
    for g, a in family(n, which):
        rows = gates(g, a, rows)
    return tuple(rows)


@lru_cache(maxsize=None)
def selftest():
    """Conjugation, products and commutation agree with dense matrices (two qubits)."""
    rows = D.all_rows(2)
    for r in rows:
        for name in ("X", "Y", "Z", "H", "S"):
            for q in (0, 1):
                assert tuple(bits(gate(name, (q,), row_of(r)), 2)) == D.conj(name, (q,), r), (name, q, r)
        for name in ("CX", "CZ"):
            for p in ((0, 1), (1, 0)):
                assert tuple(bits(gate(name, p, row_of(r)), 2)) == D.conj(name, p, r), (name, p, r)
        for s in rows:
            (x, z), e = mul(row_of(r), row_of(s))
            m = D.pauli(r) @ D.pauli(s)
            assert np.allclose(m, 1j ** e * D.pauli(tuple(bits((x, z, 0), 2)))), (r, s)
            assert symp(row_of(r), row_of(s)) == D.symp(r, s)
    return True
