"""Exact analysis of generated error-correction circuits.

A generated circuit (the gate list of the real generator) is converted gate by gate to
a stim circuit by the table below (not by the package's own stim backend). Parities of
measurement results are then analysed *symbolically* by stim: a parity is deterministic
exactly if the detector error model exists, for all measurement outcomes at once.
"""
from __future__ import annotations

from functools import lru_cache

import numpy as np
import stim

from .codes import logical_indices

CLIFF = {"X", "Y", "Z", "H", "CX", "CZ", "M", "R"}
NOISE = {"E_PAULI", "E_PAULI2", "E_ERASE", "ERROR"}


def to_stim(gates, inject=()):
    """Noise-free stim circuit; ``inject`` = {(gate number, pauli string, qubits)}: apply a
    Pauli in place of the noise instruction with that number."""
    c = stim.Circuit()
    inj = {i: (p, q) for i, p, q in inject}
    for i, (name, args) in enumerate(gates):
        if name in CLIFF:
            c.append(name, [int(a) for a in args])
        elif name in NOISE:
            if i in inj:
                for p, q in zip(*inj[i]):
                    if p != "I":
                        c.append(p, [int(q)])
        else:
            raise ValueError(name)
    return c


def n_measurements(gates):
    return sum(len(a) for g, a in gates if g == "M")


def parities(circ, sets, m):
    """For each set of measurement indices: 0/1 if its parity is deterministic, else None."""
    out = []
    run = run_once(circ)
    good = deterministic(circ, sets, m)
    for s, g in zip(sets, good):
        out.append(int(run[list(s)].sum() % 2) if g else None)
    return out


def run_once(circ):
    sim = stim.TableauSimulator(seed=1)
    sim.do_circuit(circ)
    return np.array(sim.current_measurement_record(), dtype=int)


def _ok(circ, sets, m):
    c = circ.copy()
    for s in sets:
        c.append("DETECTOR", [stim.target_rec(int(i) - m) for i in s])
    try:
        c.detector_error_model()
        return True
    except ValueError:
        return False


def deterministic(circ, sets, m):
    """Which parities have the same value whatever the random outcomes?"""
    sets = [tuple(s) for s in sets]
    if not sets or _ok(circ, sets, m):
        return [True] * len(sets)
    if len(sets) == 1:
        return [False]
    # Not all; decide them one by one.
    return [_ok(circ, [s], m) for s in sets]


class Layout:
    """Where the results of a generated circuit are: derived from the lattice alone."""

    def __init__(self, code, logical_ops, logical_ancilla):
        idx = list(logical_indices(logical_ops))
        self.idx = idx
        w = [1 if logical_ancilla else len(code.lattice.logical_ops[i].edges) for i in idx]
        S, R = len(code.lattice.stabgens), code.n_rounds
        self.S, self.R = S, R
        self.total = 2 * sum(w) + (R + 1) * S
        pos = 0
        self.initial = []
        for k in w:
            self.initial.append(tuple(range(pos, pos + k)))
            pos += k
        self.stab = []
        for _ in range(R + 1):
            self.stab.append([(pos + i,) for i in range(S)])
            pos += S
        self.final = []
        for k in w:
            self.final.append(tuple(range(pos, pos + k)))
            pos += k

    def detectors(self):
        return [self.stab[r][i] + self.stab[r + 1][i] for r in range(self.R) for i in range(self.S)]

    def observables(self):
        return [a + b for a, b in zip(self.initial, self.final)]


def quiet(sh, code, gates, logical_ops, ancilla, key, case):
    """Noise-free: every syndrome bit and every logical toggle is surely 0."""
    lay = Layout(code, logical_ops, ancilla)
    m = n_measurements(gates)
    if not sh.check(m == lay.total, f"{key}:measurements", f"{m} measurements, expected {lay.total}", case):
        return
    circ = to_stim(gates)
    for name, sets in (("syndrome", lay.detectors()), ("logical", lay.observables())):
        for s, v in zip(sets, parities(circ, sets, m)):
            sh.check(v == 0, f"{key}:{name}:{'random' if v is None else 'flipped'}",
                     f"noise-free {name} parity of measurements {s} is {'random' if v is None else v}", case)
    sh.count(transitions=len(lay.detectors()) + len(lay.observables()))
