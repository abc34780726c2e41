"""Reference semantics of circuits (docs/ref/circuits.rst) on dense density matrices.

A state is ``{(measurements, erasures, error context): unnormalised rho}``: probabilistic
gates whose outcome nobody reports are averaged over, so only observable behaviour and
the final quantum channel are specified.
"""
from __future__ import annotations

import numpy as np

from . import dense as D

PAULIS = "IXYZ"


def start(n):
    return {((), (), (False, False, False)): D.zero(n)}


def _u(rho, m):
    return m @ rho @ m.conj().T


def unitary(name, args, n):
    m = np.eye(2**n, dtype=complex)
    if name in ("CX", "CZ"):
        for c, t in zip(args[::2], args[1::2]):
            m = D.gate2(name, c, t, n) @ m
    else:
        for q in args:
            m = D.gate1(name, q, n) @ m
    return m


def proj(q, v, n):
    return D.kron(*[np.diag([1.0 - v, float(v)]) if k == q else D.I2 for k in range(n)])


def _put(out, key, rho):
    if abs(np.trace(rho)) > 1e-12:
        out[key] = out[key] + rho if key in out else rho


def gate(branches, name, args, n):
    """Apply one ordinary (not ERROR...) instruction to every branch."""
    for step in _steps(name, args, n):
        out = {}
        for key, rho in branches.items():
            for k, r in step(key, rho):
                _put(out, k, r)
        branches = out
    return branches


def _steps(name, args, n):
    if name in ("X", "Y", "Z", "H", "CX", "CZ", "S"):
        m = unitary(name, args, n)
        return [lambda k, r: [(k, _u(r, m))]]
    if name == "M":
        return [(lambda q: lambda k, r: [
            ((k[0] + (v,), k[1], k[2]), _u(r, proj(q, v, n))) for v in (0, 1)])(q) for q in args]
    if name == "R":
        return [(lambda q: lambda k, r: [
            (k, _u(r, proj(q, 0, n))), (k, _u(r, D.gate1("X", q, n) @ proj(q, 1, n)))])(q) for q in args]
    if name == "DEPOLARIZE":
        return [mix([(1 / 3, p, (q,)) for p in "XYZ"], n) for q in args]
    if name == "E_PAULI":
        ps, q = args[:3], args[3]
        return [mix([(1 - sum(ps), "I", (q,)), *[(p, x, (q,)) for p, x in zip(ps, "XYZ")]], n)]
    if name == "E_PAULI2":
        ps, qs = args[:15], args[15:]
        names = [a + b for a in PAULIS for b in PAULIS]
        return [mix([(1 - sum(ps), "II", qs), *[(p, x, qs) for p, x in zip(ps, names[1:])]], n)]
    if name == "E_ERASE":
        p, q = args
        er = mix([(p / 4, x, (q,)) for x in PAULIS], n)

        def step(k, r):
            yield (k[0], k[1] + (False,), k[2]), r * (1 - p)
            for _, s in er(k, r):
                yield (k[0], k[1] + (True,), k[2]), s
        return [step]
    raise AssertionError(name)


def mix(terms, n):
    ms = []
    for p, ps, qs in terms:
        if p < 1e-15:
            continue
        m = np.eye(2**n, dtype=complex)
        for x, q in zip(ps, qs):
            m = D.gate1(x, q, n) @ m
        ms.append((p, m))
    return lambda k, r: [(k, p * _u(r, m)) for p, m in ms]


class Invalid(Exception):
    """The circuit is not meaningful (stray ERROR_CONTINUE / ERROR_ELSE)."""


def step(branches, name, args, n):
    if not name.startswith("ERROR"):
        b = gate(branches, name, args, n)
        return _merge({(k[0], k[1], (False, False, False)): None for k in b}, b)
    out = {}
    for key, rho in branches.items():
        m, e, (inside, any_, now) = key
        if name == "ERROR":
            opts = [(args[0], (True, True, True), True), (1 - args[0], (True, False, False), False)]
            g, a = args[1], args[2:]
        elif not inside:
            raise Invalid(name)
        elif name == "ERROR_CONTINUE":
            opts = [(1.0, (True, any_, now), now)]
            g, a = args[0], args[1:]
        else:  # ERROR_ELSE
            g, a = args[1], args[2:]
            if any_:
                opts = [(1.0, (True, True, False), False)]
            else:
                opts = [(args[0], (True, True, True), True), (1 - args[0], (True, False, False), False)]
        for p, ctx, doit in opts:
            if p < 1e-15:
                continue
            b = {(m, e, ctx): p * rho}
            if doit:
                b = gate(b, g, a, n)
            for k, r in b.items():
                _put(out, k, r)
    return out


def _merge(_, b):
    out = {}
    for k, r in b.items():
        _put(out, (k[0], k[1], (False, False, False)), r)
    return out


def finish(branches):
    """{(measurements, erasures): unnormalised rho}"""
    out = {}
    for k, r in branches.items():
        _put(out, (k[0], k[1]), r)
    return out


def run(gates, n):
    b = start(n)
    for name, args in gates:
        b = step(b, name, args, n)
    return finish(b)


def same(a, b, tol=1e-7):
    z = None
    for k in a.keys() | b.keys():
        x, y = a.get(k, z), b.get(k, z)
        x = 0 if x is None else x
        y = 0 if y is None else y
        if np.abs(x - y).max() > tol:
            return False
    return True


def probs(a):
    return {k: round(float(np.trace(r).real), 6) for k, r in a.items()}
