"""P08: the stim backend and the Clifford backend mean the same circuit."""
from itertools import product

import numpy as np
import stim

from plaquette import Device
from plaquette.circuit import Circuit
from plaquette.device._stimsim import StimSimulator, circuit_to_stim

from .. import refsim as R
from .. import stimref as SR
from .. import wide as W
from ..choice import same_distribution
from . import p06

LEVEL = "model_checking"
RULE = ("state = circuit prefix with its record; transition = one instruction; every instruction sequence up to the "
        "stated length is translated, the translation is executed exhaustively (every measurement outcome and noise "
        "event, with exact probability) and compared with the documented semantics, and shots drawn by the real "
        "backend are checked for membership; non-trivial = at least two different records possible")
ASSUMPTIONS = ["stim implements its own documented gate semantics", "reference: docs/ref/circuits.rst on dense matrices"]
CHUNK = 1

A2 = [i for i in p06.A2 if i[0] not in ("ERROR_ELSE", "ERROR_CONTINUE") and not (i[0] == "ERROR" and i[1][1] == "H")] + [
    ("ERROR", (0.4, "Y", 1)), ("ERROR", (0.7, "Z", 0)), ("E_PAULI2", (*p06.P15, 0, 1)), ("E_PAULI2", (*p06.P15, 1, 0)),
    ("DEPOLARIZE", (0, 1)), ("E_ERASE", (0.5, 1)), ("E_ERASE", (0.0, 0))]
A3 = [i for i in p06.A3 if i[0] not in ("ERROR_ELSE", "ERROR_CONTINUE")] + [("ERROR", (1.0, "X", 2)), ("E_ERASE", (1.0, 1))]
UNSUP = [("ERROR", (0.5, "H", 0)), ("ERROR", (0.5, "CX", 0, 1)), ("ERROR", (0.5, "X", 0, 1)), ("ERROR", (0.5, "M", 0)),
         ("ERROR_ELSE", (0.5, "X", 0)), ("ERROR_CONTINUE", ("X", 0))]


def plan(tier):
    t = tier == "thorough"
    items = [("walk", (2, p, (i,), 2)) for p in range(len(p06.PREP2)) for i in range(len(A2))]
    items += [("walk", (2, p, (i, j), 3)) for p in range(len(p06.PREP2)) for i in range(len(A2)) for j in range(len(A2))
              if t or (p in (1, 2) and (i + j) % 2 == p - 1)]
    items += [("walk", (3, p, (i,), 3 if t else 2)) for p in range(len(p06.PREP3)) for i in range(len(A3))]
    items += [("walk", (0, p, (i,), 3 if t else 2)) for p in range(len(p06.PREP2)) for i in range(len(p06.AGAIN))]
    items += [("single", k) for k in range(15)]
    items += [("deterministic", (i, 6 if t else 5)) for i in range(len(DET))]
    items += [("unsupported", 0)]
    items += [("deep", i) for i in range(len(p06.DEEP))]
    items += [("wide", (n, f)) for n in (9, 33, 66, 104, 131) + ((260,) if t else ()) for f in W.CIRCUIT_FAMILIES]
    return items


def walk(sh, item):
    n, prep, first, depth = item
    al = {0: p06.AGAIN, 2: A2, 3: A3}[n]
    pre = list((p06.PREP3 if n == 3 else p06.PREP2)[prep])
    for rest in product(range(len(al)), repeat=depth - len(first)):
        if sum(al[i][0] == "E_PAULI2" for i in (*first, *rest)) > 1:
            continue
        one(sh, pre + [al[i] for i in (*first, *rest)])


def build(seq):
    c = Circuit()
    for name, args in seq:
        c.append(name, *args)
    return c


def one(sh, seq, shots=2):
    case = [f"{a} {' '.join(map(str, b))}" for a, b in seq]
    nq = max([0] + [a for s in seq for a in s[1] if isinstance(a, int)]) + 1
    want = R.run(seq, nq)
    sh.count(states=1, transitions=len(seq))
    sh.case(case, nontrivial=len(want) > 1)
    with sh.guard("stim", case):
        c = build(seq)
        sc, flags = circuit_to_stim(c)
        got = {}
        width = max(1, sc.num_qubits)
        flags = [bool(f) for f in flags]
        for rec, rho in SR.run(sc).items():
            if len(rec) != len(flags):
                sh.fail("stim:record-length", f"{len(rec)} results, {len(flags)} flags", case)
                return
            m = tuple(int(v) for v, f in zip(rec, flags) if not f)
            e = tuple(bool(v) for v, f in zip(rec, flags) if f)
            if width > nq:
                rho = p06.trace_last(rho, width, nq)
            elif width < nq:  # qubits the translation never touches stay |0>
                k = nq - width
                z = np.zeros((2**k, 2**k), dtype=complex)
                z[0, 0] = 1
                rho = np.kron(rho, z)
            got[m, e] = got.get((m, e), 0) + rho
        sh.check(R.same(got, want), "stim:translation:" + p06.kind(seq),
                 lambda: f"(measurements, erasures) -> probability {R.probs(got)}, want {R.probs(want)}"
                         + ("" if R.probs(got) != R.probs(want) else "; the quantum states differ"), case)
        sim = StimSimulator(c, stim_seed=11, batch_size=shots)
        for _ in range(shots):
            m, e = sim.get_sample()
            key = (tuple(int(x) for x in m), tuple(bool(x) for x in e) if e is not None else ())
            sh.check(key in want, "stim:impossible-shot", f"shot {key} is impossible", case)
            sh.count(traces_validated_against_impl=1)


def wide(sh, item):
    """Large registers: the translated circuit, every record with its probability; shots are possible ones."""
    n, fam = item
    for i, seq in enumerate(W.circuits(n, fam, stim=True)):
        case = (item, i)
        want = W.records(seq, n)
        state = next(iter(want))[2] is not None
        c = build(seq)
        with sh.guard("wide", case):
            sc, flags = circuit_to_stim(c)
            got = {}
            for (rec, g), p in SR.run_wide(sc, n, state).items():
                if len(rec) != len(flags):
                    sh.fail("stim:record-length", f"{len(rec)} results, {len(flags)} flags", case)
                    return
                k = (tuple(int(v) for v, f in zip(rec, flags) if not f), tuple(bool(v) for v, f in zip(rec, flags) if f), g)
                got[k] = got.get(k, 0.0) + p
            sh.count(states=1, transitions=len(seq))
            sh.case(case, nontrivial=len(want) > 1)
            sh.check(same_distribution(got, want), "wide:translation",
                     lambda: "records and states differ from the documented semantics: " + p06.differ(got, want), case)
            sim = StimSimulator(c, stim_seed=5, batch_size=3)
            for _ in range(7):
                m, e = sim.get_sample()
                key = (tuple(int(x) for x in m), tuple(bool(x) for x in e) if e is not None else ())
                sh.check(any(k[:2] == key for k in want), "stim:impossible-shot", f"shot {key} is impossible", case)
                sh.count(traces_validated_against_impl=1)


def single(sh, i):
    """Each two-qubit Pauli and each single-qubit one on its own, on states that tell them apart."""
    for qs in ((0, 1), (1, 0), (2, 0)):
        p = tuple(0.5 if x == i else 0.0 for x in range(15))
        for prep in ((), (("H", (0,)),), (("H", qs), ("CZ", qs)), (("H", (qs[1],)), ("CX", (qs[1], qs[0])))):
            one(sh, [*prep, ("E_PAULI2", p + qs), ("M", (qs[0],))])
            if i < 3:
                one(sh, [*prep, ("E_PAULI", p[:3] + (qs[0],)), ("M", (qs[1],))])
    sh.sample(f"E_PAULI2 with only entry {i}")


# Deterministic instructions: the real backend's shot must be exactly the predicted one,
# whatever the interleaving of measurements and erasure heralds.
DET = [("X", (0,)), ("CX", (0, 1)), ("M", (1, 0)), ("M", (0,)), ("E_ERASE", (0.0, 0)), ("E_ERASE", (1.0, 2)),
       ("ERROR", (1.0, "X", 1)), ("R", (1,)), ("E_PAULI", (0.0, 1.0, 0.0, 0))]


def deterministic(sh, item):
    first, depth = item
    for k in range(1, depth + 1):
        for rest in product(range(len(DET)), repeat=k - 1):
            if k > 3 and not {2, 3} & set(rest[-2:]):
                continue
            seq = [DET[i] for i in (first, *rest)]
            x, m, e = [0, 0], [], []
            for name, a in seq:
                if name == "X":
                    x[0] ^= 1
                elif name == "CX":
                    x[1] ^= x[0]
                elif name == "M":
                    m += [x[q] for q in a]
                elif name == "E_ERASE":
                    e.append(a[0] == 1.0)
                elif name == "ERROR":
                    x[1] ^= 1
                elif name == "R":
                    x[1] = 0
                elif name == "E_PAULI":
                    x[0] ^= 1
            sh.count(states=1, transitions=k, traces_validated_against_impl=1)
            sh.case(seq)
            with sh.guard("stim:det", seq):
                for be in ("stim",) if k > 3 else ("stim", "clifford"):
                    dev = Device(be, **({"batch_size": 2} if be == "stim" else {}))
                    c = build(seq)
                    for _ in range(3):
                        dev.run(c)
                        gm, ge = dev.get_sample()
                        gm = [int(v) for v in gm]
                        gel = [bool(v) for v in ge] if ge is not None else []
                        sh.check(gm == m and gel == e and (ge is None) == (not e), f"{be}:results",
                                 f"{gm} {ge}, want {m} {e}", seq)


def unsupported(sh, item):
    """What the stim backend cannot do, it refuses; it never silently drops it."""
    for bad in UNSUP:
        for before, after in product([[], [("H", (0,)), ("ERROR", (0.1, "X", 0))]], [[], [("M", (0, 1))]]):
            seq = before + [bad] + after
            sh.case(seq)
            sh.count(states=1, transitions=1)
            try:
                c = build(seq)
                sc, flags = circuit_to_stim(c)
            except ValueError:
                continue
            # A backend that learns to translate it must do so correctly.
            try:
                nq = c.number_of_qubits
                want = R.run(seq, nq)
            except R.Invalid:
                continue
            got = {}
            for rec, rho in SR.run(sc).items():
                k = (tuple(int(v) for v, f in zip(rec, flags) if not f), tuple(bool(v) for v, f in zip(rec, flags) if f))
                got[k] = got.get(k, 0) + (p06.trace_last(rho, max(1, sc.num_qubits), nq) if sc.num_qubits > nq else rho)
            sh.check(R.same(got, want), "stim:unsupported", f"translated to something else: {sc}", seq)


def deep(sh, i):
    seq = p06.DEEP[i]
    if any(s[0] in ("ERROR_ELSE", "ERROR_CONTINUE") for s in seq):
        return
    for cut in range(1, len(seq) + 1):
        one(sh, seq[:cut], shots=8)
