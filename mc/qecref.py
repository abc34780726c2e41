"""Reference for generated error-correction circuits.

``reference`` writes the circuit the documentation describes for a code and an error
configuration, from the lattice alone. ``effects`` turns any gate list into what an
outside observer can see of its noise: for every noise instruction, with what
probability it flips which syndrome bits and which logical toggles. Two circuits whose
noise-free parities agree and whose effects agree are the same error model.
"""
from __future__ import annotations

from .codes import logical_indices


def scheduled(code):
    return code.lattice.n_time_steps is not None and all(
        isinstance(e.measurement_time_step, int) for v in code.lattice.stabgens for e in v.edges)


def reference(code, qe, ge, logical_ops, ancilla):
    lat = code.lattice
    out = []

    def gate(name, anc, data, noisy):
        out.append((name, [anc] if data is None else [anc, data]))
        if not noisy:
            return
        if data is None:
            p = ge.get(name, {}).get(anc)
            if p:
                out.append(("E_PAULI", [p.get("x", 0), p.get("y", 0), p.get("z", 0), anc]))
        else:
            p = ge.get(name, {}).get((anc, data))
            if p:
                out.append(("E_PAULI2", [p.get(a + b, 0) for a in "ixyz" for b in "ixyz"][1:] + [anc, data]))

    def measure_ancilla(v, noisy):
        a = v.equbit_idx
        gate("H", a, None, noisy)
        p = qe.get("measurement", {}).get(a)
        if noisy and p:
            out.append(("ERROR", [p["p"], "X", a]))
        gate("M", a, None, noisy)

    def couple(e, noisy):
        gate({"X": "CX", "Z": "CZ"}[e.factor.name], e.op.equbit_idx, e.data.equbit_idx, noisy)

    def one(v, noisy):
        a = v.equbit_idx
        gate("R", a, None, noisy)
        gate("H", a, None, noisy)
        for e in v.edges:
            couple(e, noisy)
        measure_ancilla(v, noisy)

    def stabs(noisy):
        if not scheduled(code):
            for v in lat.stabgens:
                one(v, noisy)
            return
        for v in lat.stabgens:
            gate("R", v.equbit_idx, None, noisy)
            gate("H", v.equbit_idx, None, noisy)
        for t in range(lat.n_time_steps):
            for v in lat.stabgens:
                for e in v.edges:
                    if e.measurement_time_step == t:
                        couple(e, noisy)
        for v in lat.stabgens:
            measure_ancilla(v, noisy)

    def logicals():
        for i in logical_indices(logical_ops):
            v = lat.logical_ops[i]
            if ancilla:
                one(v, False)
                continue
            for e in v.edges:
                q = e.data.equbit_idx
                h = e.factor.name == "X"
                out.extend([("H", [q])] * h + [("M", [q])] + [("H", [q])] * h)

    def data():
        for v in lat.dataqubits:
            q = v.equbit_idx
            p = qe.get("pauli", {}).get(q)
            if p:
                out.append(("E_PAULI", [p.get("x", 0), p.get("y", 0), p.get("z", 0), q]))
            p = qe.get("erasure", {}).get(q)
            if p:
                out.append(("E_ERASE", [p.get("p", 0), q]))

    logicals()
    stabs(False)
    for r in range(code.n_rounds):
        data()
        stabs(r < code.n_rounds - 1)
    logicals()
    return out


def channel(pairs):
    d = {}
    for e, p in pairs:
        if e and p:
            d[e] = d.get(e, 0.0) + p
    return tuple(sorted((e, round(p, 12)) for e, p in d.items()))


def effects(gates, parities):
    """(sorted list of channels, list of erasures in program order).

    ``parities``: list of sets of measurement indices; an effect is the bit mask of the
    parities that flip. Erasures are (p, effect of X, effect of Z, qubit)."""
    m = sum(len(a) for g, a in gates if g == "M")
    mask = [0] * m
    for i, s in enumerate(parities):
        for k in s:
            mask[k] ^= 1 << i
    xm, zm = {}, {}
    noise, erased = [], []
    k = m
    for name, a in reversed(gates):
        if name == "M":
            for q in reversed(a):
                k -= 1
                xm[q] = xm.get(q, 0) ^ mask[k]
        elif name == "R":
            for q in a:
                xm[q] = zm[q] = 0
        elif name == "H":
            for q in a:
                xm[q], zm[q] = zm.get(q, 0), xm.get(q, 0)
        elif name in ("CX", "CZ"):
            for c, t in reversed(list(zip(a[::2], a[1::2]))):
                if name == "CX":
                    xm[c] = xm.get(c, 0) ^ xm.get(t, 0)
                    zm[t] = zm.get(t, 0) ^ zm.get(c, 0)
                else:
                    xm[c] = xm.get(c, 0) ^ zm.get(t, 0)
                    xm[t] = xm.get(t, 0) ^ zm.get(c, 0)
        elif name in ("X", "Y", "Z"):
            pass
        elif name == "E_PAULI":
            x, y, z, q = a
            fx, fz = xm.get(q, 0), zm.get(q, 0)
            noise.append(channel([(fx, x), (fx ^ fz, y), (fz, z)]))
        elif name == "E_PAULI2":
            q, r = a[15:]
            one = {"i": 0, "x": xm.get(q, 0), "z": zm.get(q, 0)}
            two = {"i": 0, "x": xm.get(r, 0), "z": zm.get(r, 0)}
            one["y"], two["y"] = one["x"] ^ one["z"], two["x"] ^ two["z"]
            noise.append(channel([(one[c] ^ two[d], p) for (c, d), p in
                                  zip([(c, d) for c in "ixyz" for d in "ixyz"][1:], a[:15])]))
        elif name == "ERROR":
            p, kind, *qs = a
            e = 0
            for letter, q in zip(kind, qs):
                e ^= (xm.get(q, 0) if letter in "XY" else 0) ^ (zm.get(q, 0) if letter in "ZY" else 0)
            noise.append(channel([(e, p)]))
        elif name == "E_ERASE":
            p, q = a
            erased.append((round(p, 12), xm.get(q, 0), zm.get(q, 0), q))
        else:
            raise ValueError(f"unexpected instruction {name}")
    return sorted(c for c in noise if c), erased[::-1]
