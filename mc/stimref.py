"""Exhaustive interpreter for stim circuits (reference semantics of stim's gate documentation)."""
from functools import lru_cache

import numpy as np
import stim

from . import dense as D
from .core import HarnessError
from .refsim import PAULIS, _put, _u, mix, proj

IGNORE = {"TICK", "QUBIT_COORDS", "SHIFT_COORDS", "DETECTOR", "OBSERVABLE_INCLUDE"}


@lru_cache(maxsize=None)
def unitary(name, qs, n):
    u = np.array(stim.gate_data(name).unitary_matrix, dtype=complex)  # little endian
    exact = np.array([0, 0.5, -0.5, 0.5**0.5, -(0.5**0.5), 1, -1])  # stim stores single precision
    snap = lambda a: exact[abs(a[..., None] - exact).argmin(-1)]  # noqa: E731
    u = snap(u.real) + 1j * snap(u.imag)
    if len(qs) == 1:
        return D.kron(*[u if k == qs[0] else D.I2 for k in range(n)])
    out = np.zeros((2**n, 2**n), dtype=complex)
    a, b = qs
    for col in range(2**n):
        bits = [(col >> (n - 1 - k)) & 1 for k in range(n)]
        i = bits[a] + 2 * bits[b]
        for o in range(4):
            if abs(u[o, i]) > 1e-9:
                nb = list(bits)
                nb[a], nb[b] = o & 1, o >> 1
                out[sum(v << (n - 1 - k) for k, v in enumerate(nb)), col] += u[o, i]
    return out


def run(circ):
    """{record: unnormalised rho} over circ.num_qubits qubits (at least 1)."""
    n = max(1, circ.num_qubits)
    if n > 6:
        raise HarnessError("stim circuit too wide for the interpreter")
    br = {((), False): D.zero(n)}  # (record, correlated error happened)
    for ins in circ.flattened():
        br = _step(br, ins, n)
    out = {}
    for (rec, _), r in br.items():
        _put(out, rec, r)
    return out


def _each(br, f):
    out = {}
    for k, r in br.items():
        for k2, r2 in f(k, r):
            _put(out, k2, r2)
    return out


def _pauli_targets(ts):
    s = []
    for t in ts:
        x = "X" if t.is_x_target else "Y" if t.is_y_target else "Z" if t.is_z_target else None
        if x is None:
            raise HarnessError(f"target {t}")
        s.append((x, t.value))
    return s


def _step(br, ins, n):
    name, ts, a = ins.name, ins.targets_copy(), ins.gate_args_copy()
    g = stim.gate_data(name)
    if name in IGNORE:
        return br
    if g.is_unitary:
        qs = [t.value for t in ts]
        k = 2 if g.is_two_qubit_gate else 1
        for i in range(0, len(qs), k):
            m = unitary(name, tuple(qs[i:i + k]), n)
            br = {key: _u(r, m) for key, r in br.items()}
        return br
    if name in ("M", "MX", "MY", "MR", "MRX", "MRY", "R", "RX", "RY"):
        basis = name[-1] if name[-1] in "XY" else "Z"
        pre = {"Z": np.eye(2), "X": D.HAD, "Y": D.HAD @ D.SG.conj().T}[basis]
        p = a[0] if a else 0.0
        for t in ts:
            q = t.value
            v = D.kron(*[pre if k == q else D.I2 for k in range(n)])

            def f(key, r):
                for bit in (0, 1):
                    s = _u(_u(r, v), proj(q, bit, n))
                    if "R" in name and bit:
                        s = _u(s, D.gate1("X", q, n))
                    s = _u(s, v.conj().T)
                    if "M" not in name:
                        yield key, s
                        continue
                    out = bit ^ t.is_inverted_result_target
                    for e, w in ((0, 1 - p), (1, p)):
                        if w:
                            yield (key[0] + (out ^ e,), key[1]), s * w
            br = _each(br, f)
        return br
    if name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
        for t in ts:
            m = mix([(1 - a[0], "I", (t.value,)), (a[0], name[0], (t.value,))], n)
            br = _each(br, m)
        return br
    if name in ("PAULI_CHANNEL_1", "DEPOLARIZE1"):
        ps = a if name[0] == "P" else [a[0] / 3] * 3
        for t in ts:
            br = _each(br, mix([(1 - sum(ps), "I", (t.value,)), *[(p, x, (t.value,)) for p, x in zip(ps, "XYZ")]], n))
        return br
    if name in ("PAULI_CHANNEL_2", "DEPOLARIZE2"):
        ps = a if name[0] == "P" else [a[0] / 15] * 15
        names = [x + y for x in PAULIS for y in PAULIS][1:]
        for i in range(0, len(ts), 2):
            qs = (ts[i].value, ts[i + 1].value)
            br = _each(br, mix([(1 - sum(ps), "II", qs), *[(p, x, qs) for p, x in zip(ps, names)]], n))
        return br
    if name in ("E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
        m = np.eye(2**n, dtype=complex)
        for x, q in _pauli_targets(ts):
            m = D.gate1(x, q, n) @ m
        other = name[:2] == "EL"

        def f(key, r):
            if other and key[1]:
                yield key, r
                return
            yield (key[0], True), a[0] * _u(r, m)
            yield (key[0], False), (1 - a[0]) * r
        return _each(br, f)
    if name in ("HERALDED_ERASE", "HERALDED_PAULI_CHANNEL_1"):
        ps = [a[0] / 4] * 4 if name[-1] == "E" else a
        for t in ts:
            ms = [mix([(p, x, (t.value,))], n) for p, x in zip(ps, PAULIS)]

            def f(key, r):
                yield (key[0] + (0,), key[1]), r * (1 - sum(ps))
                for m in ms:
                    for _, s in m(key, r):
                        yield (key[0] + (1,), key[1]), s
            br = _each(br, f)
        return br
    if name == "MPAD":
        return {((k[0] + tuple(t.value for t in ts)), k[1]): r for k, r in br.items()}
    raise HarnessError(f"stim instruction {name} is not modelled")


def run_wide(circ, n, state):
    """{(record, generators of the final state of n qubits or None): probability}, for large registers."""
    from . import wide as W

    sim = stim.TableauSimulator()
    sim.set_num_qubits(max(circ.num_qubits, n))
    live = [(1.0, (), False, sim)]

    def each(f):
        return [x for b in live for x in f(*b)]

    def paulis(s, ps):
        s = s.copy()
        for x, q in ps:
            if x != "I":
                getattr(s, x.lower())(q)
        return s

    def channel(terms):
        """terms: [(probability, [(pauli, qubit)])]"""
        rest = 1 - sum(p for p, _ in terms)
        ts = [(rest, [])] * (rest > 1e-12) + [t for t in terms if t[0] > 1e-12]
        return each(lambda p, r, c, s: [(p * w, r, c, paulis(s, ps)) for w, ps in ts])

    for ins in circ.flattened():
        name, ts, a = ins.name, ins.targets_copy(), ins.gate_args_copy()
        if name in IGNORE:
            continue
        if stim.gate_data(name).is_unitary:
            for b in live:
                b[3].do(ins)
        elif name in ("M", "R", "MR"):
            for t in ts:
                q, inv, flip = t.value, t.is_inverted_result_target, (a[0] if a else 0.0)

                def f(p, r, c, s):
                    z = s.peek_z(q)
                    for bit in (0, 1) if z == 0 else ((1 - z) // 2,):
                        s2 = s.copy()
                        s2.postselect_z(q, desired_value=bool(bit))
                        if "R" in name and bit:
                            s2.x(q)
                        w = p * (0.5 if z == 0 else 1.0)
                        if "M" not in name:
                            yield w, r, c, s2
                            continue
                        for e, v in ((0, 1 - flip), (1, flip)):
                            if v > 0:
                                yield w * v, r + (bit ^ inv ^ e,), c, s2.copy()
                live = each(f)
        elif name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
            for t in ts:
                live = channel([(a[0], [(name[0], t.value)])])
        elif name in ("PAULI_CHANNEL_1", "DEPOLARIZE1"):
            ps = a if name[0] == "P" else [a[0] / 3] * 3
            for t in ts:
                live = channel([(p, [(x, t.value)]) for p, x in zip(ps, "XYZ")])
        elif name in ("PAULI_CHANNEL_2", "DEPOLARIZE2"):
            ps = a if name[0] == "P" else [a[0] / 15] * 15
            names = [x + y for x in PAULIS for y in PAULIS][1:]
            for i in range(0, len(ts), 2):
                live = channel([(p, list(zip(x, (ts[i].value, ts[i + 1].value)))) for p, x in zip(ps, names)])
        elif name in ("E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
            ps, other = _pauli_targets(ts), name[:2] == "EL"

            def f(p, r, c, s):
                if other and c:
                    yield p, r, c, s
                    return
                if a[0] > 1e-12:
                    yield p * a[0], r, True, paulis(s, ps)
                if a[0] < 1 - 1e-12:
                    yield p * (1 - a[0]), r, False, s
            live = each(f)
        elif name in ("HERALDED_ERASE", "HERALDED_PAULI_CHANNEL_1"):
            ps = [a[0] / 4] * 4 if name[-1] == "E" else a
            for t in ts:
                def f(p, r, c, s):
                    if 1 - sum(ps) > 1e-12:
                        yield p * (1 - sum(ps)), r + (0,), c, s
                    for w, x in zip(ps, PAULIS):
                        if w > 1e-12:
                            yield p * w, r + (1,), c, paulis(s, [(x, t.value)])
                live = each(f)
        else:
            raise HarnessError(f"stim instruction {name}")
    out = {}
    for p, r, _, s in live:
        g = None
        if state:
            rows = []
            for st in s.canonical_stabilizers():
                x, z = st.to_numpy()
                rows.append((sum(1 << int(q) for q in np.nonzero(x)[0]), sum(1 << int(q) for q in np.nonzero(z)[0]), int(st.sign.real < 0)))
            g = tuple(W.echelon(rows))
        out[r, g] = out.get((r, g), 0.0) + p
    return out
