"""P12: the generated circuit is the error-correction experiment that was asked for."""
from copy import deepcopy
from itertools import product

import numpy as np

from plaquette.circuit.generator import QECCircuitGenerator, generate_qec_circuit
from plaquette.codes import LatticeCode
from plaquette.codes.latticebase import NoLogicalOperatorError
from plaquette.pauli import string_to_pauli

from .. import codes as C
from .. import qec, qecref
from .p11 import apply

LEVEL = "model_checking"
RULE = ("state = (code, rounds, measured logical operators, ancilla flag, error configuration); the generated circuit's syndrome bits and logical "
        "toggles are decided for all measurement outcomes at once and the effect of every single noise event is computed and compared with the "
        "experiment that was asked for; non-trivial = distinct such state")
ASSUMPTIONS = ["stim's symbolic analysis decides whether parities are deterministic",
               "reference circuit and Pauli propagation: mc/qecref.py", "codes with Y factors are not supported by the generator (it refuses them)"]
CHUNK = 2


def fams(tier):
    t = tier == "thorough"
    return ([("planar", 2), ("planar", 3), ("rotated", 2), ("rotated", 3), ("xzzx", 2), ("xzzx", 3), ("toric", 2), ("toric", 3), ("repetition", 3),
             ("repetition", 5), ("five", 5), ("shor", 9)]
            + ([("planar", 4), ("planar", 5), ("rotated", 4), ("rotated", 5), ("xzzx", 5), ("toric", 4), ("repetition", 9)] if t else []))


def choices(code):
    k = code.n_logical_qubits
    return ["".join(s) for s in product("XZ", repeat=k)] + [list(i) for i in product(range(2 * k), repeat=k)]


def plan(tier):
    t = tier == "thorough"
    items = []
    for f, d in fams(tier):
        for r in (1, 2, 3) + ((4, 5) if t else ()):
            for la in (False, True):
                items.append(("configs", (f, d, r, la)))
    items += [("configs", (f, d, r, la)) for f, d, r in [("repetition", 3, 11), ("rotated", 2, 12), ("five", 5, 10), ("planar", 2, 13), ("repetition", 11, 2), ("rotated", 4, 10), ("planar", 4, 2), ("toric", 4, 1)] for la in (False, True)]
    items += [("single", (f, d, la)) for f, d in fams("quick") if d <= 3 or f in ("five", "shor") or t for la in (False, True)]
    items += [("custom", (i, la)) for i in range(len(CUSTOM)) for la in (False, True)]
    items += [("edited", (f, d, q, t)) for f, d in (("planar", 2), ("planar", 3)) + (("planar", 4),) * t for q in range(C.PARAMS[f](d)[0])]
    items += [("refused", (f, d)) for f, d in [("planar", 2), ("rotated", 3), ("toric", 2), ("repetition", 3)]]
    return items


PAIR = [a + b for a in "ixyz" for b in "ixyz"][1:]


class Unique:
    """Probabilities that identify the entry they came from."""

    def __init__(self):
        self.k = 0

    def __call__(self):
        self.k += 1
        return round(self.k * 1.7e-6, 10)


def full(code, kinds, part=None):
    """Every entry of the given kinds present; ``part`` limits the parameters given."""
    u = Unique()
    lat = code.lattice
    qe, ge = {}, {}
    some = lambda names: {n: u() for j, n in enumerate(names) if part in (None, "zeros") or (j + u.k) % part == 0}
    for k in kinds:
        if k == "pauli":
            qe[k] = {v.equbit_idx: some("xyz") for v in lat.dataqubits}
        elif k == "erasure":
            # an erasure that never happens is still reported (as not erased)
            qe[k] = {v.equbit_idx: {"p": u() if part != "zeros" or (j + j // 3) % 2 else 0.0} for j, v in enumerate(lat.dataqubits)}
        elif k == "measurement":
            qe[k] = {v.equbit_idx: {"p": u()} for v in lat.stabgens}
        elif k in "HRM":
            ge[k] = {v.equbit_idx: some("xyz") for v in lat.stabgens}
        else:
            ge[k] = {(v.equbit_idx, e.data.equbit_idx): some(PAIR) for v in lat.stabgens for e in v.edges
                     if e.factor.name == k[1]}
    return qe, ge


ALL = ("pauli", "erasure", "measurement", "H", "R", "M", "CX", "CZ")
KINDS = [()] + [(k,) for k in ALL] + [("pauli", "measurement"), ("erasure", "pauli"), ("H", "CX", "CZ"), ALL]


def judge(sh, code, qe, ge, lo, la, case, noiseless=False):
    q0, g0 = deepcopy(qe), deepcopy(ge)
    circ = generate_qec_circuit(code, qe, ge, lo, la)
    sh.check((qe, ge) == (q0, g0), "inputs:changed", "error dictionaries changed", case)
    gates = list(circ.gates)
    lay = qec.Layout(code, lo, la)
    if noiseless:
        qec.quiet(sh, code, gates, lo, la, "noise-free", case)
    m = qec.n_measurements(gates)
    if not sh.check(m == lay.total, "measurements", f"{m} measurements, expected {lay.total}", case):
        return gates
    par = lay.detectors() + lay.observables()
    ref = qecref.reference(code, qe, ge, lo, la)
    got, want = qecref.effects(gates, par), qecref.effects(ref, par)
    sh.count(transitions=len(got[0]) + len(got[1]), states=1)
    sh.case(case)
    if got[0] != want[0]:
        extra = [c for c in got[0] if c not in want[0]][:3]
        miss = [c for c in want[0] if c not in got[0]][:3]
        sh.fail("noise", f"noise differs from the requested one: unexpected {show(extra, lay)}, missing {show(miss, lay)}"
                f" ({len(got[0])} vs {len(want[0])} channels)", case)
    sh.check(got[1] == want[1], "erasure", f"erasures {got[1][:4]} differ from {want[1][:4]}", case)
    return gates


def show(channels, lay):
    nd = len(lay.detectors())
    out = []
    for c in channels:
        out.append([("+".join([f"s{divmod(i, lay.S)}" if i < nd else f"L{i - nd}" for i in range(e.bit_length()) if e >> i & 1]), p) for e, p in c])
    return out


def algebra(sh, code, lo, la, case):
    """Data and measurement errors have the effect that the code's algebra gives.

    Independent of the reference circuit: a data error before round r flips the
    generators it anticommutes with in round r and the logicals it anticommutes with."""
    u = Unique()
    lat = code.lattice
    qe = {"pauli": {v.equbit_idx: {k: u() for k in "xyz"} for v in lat.dataqubits},
          "measurement": {v.equbit_idx: {"p": u()} for v in lat.stabgens}}
    gates = list(generate_qec_circuit(code, qe, {}, lo, la).gates)
    lay = qec.Layout(code, lo, la)
    if qec.n_measurements(gates) != lay.total:
        return
    stabs = [C.op(s) for s in code.stabilisers]
    logs = [C.op(code.logical_ops[i]) for i in lay.idx]
    R, S = lay.R, lay.S
    want = []
    for r in range(R):
        for v in lat.dataqubits:
            q = v.dataqubit_idx
            ch = []
            for k in "xyz":
                o = ((1 << q) if k in "xy" else 0, (1 << q) if k in "zy" else 0)
                e = sum(C.anti(o, s) << (r * S + i) for i, s in enumerate(stabs)) | sum(C.anti(o, l) << (R * S + i) for i, l in enumerate(logs))
                ch.append((e, qe["pauli"][v.equbit_idx][k]))
            want.append(qecref.channel(ch))
        if r < R - 1:
            for i, v in enumerate(lat.stabgens):
                want.append(qecref.channel([((1 << (r * S + i)) | (1 << ((r + 1) * S + i)), qe["measurement"][v.equbit_idx]["p"])]))
    got = qecref.effects(gates, lay.detectors() + lay.observables())[0]
    want = sorted(c for c in want if c)
    sh.count(transitions=len(want))
    if got != want:
        sh.fail("algebra", f"data/measurement errors: unexpected {show([c for c in got if c not in want][:3], lay)}, "
                f"missing {show([c for c in want if c not in got][:3], lay)}", case)


def configs(sh, item):
    f, d, r, la = item
    code = C.make(f, d, r)
    for lo in choices(code):
        # Logical operators which do not commute are refused
        logs = [C.op(code.logical_ops[i]) for i in C.logical_indices(lo)]
        bad = any(C.anti(a, b) for a in logs for b in logs)
        if bad:
            try:
                generate_qec_circuit(code, {}, {}, lo, la)
                sh.fail("refused:logicals", f"non-commuting logical operators {lo} accepted", (item, lo))
            except ValueError:
                sh.count(refused=1)
            continue
        if not la and not separable(code, lo):
            # Measuring single qubits cannot give both operators
            continue
        algebra(sh, code, lo, la, (item, lo))
        for n, kinds in enumerate(KINDS):
            if not isinstance(lo, str) and kinds not in ((), ALL):
                continue
            for part in (None,) + (("zeros",) if "erasure" in kinds else ()) + ((2, 3) if set(kinds) & {"pauli", "H", "R", "M", "CX", "CZ"} else ()):
                qe, ge = full(code, kinds, part)
                case = (item, lo, kinds, part)
                with sh.guard("configs", case):
                    judge(sh, code, qe, ge, lo, la, case, noiseless=n == 0 or part == 3)
    with sh.guard("reuse", item):
        reuse(sh, code, la, item)


def separable(code, lo):
    """No qubit is measured in two bases: otherwise single-qubit results are not the operators."""
    letters = {}
    for i in C.logical_indices(lo):
        for e in code.lattice.logical_ops[i].edges:
            if letters.setdefault(e.data.equbit_idx, e.factor.name) != e.factor.name:
                return False
    return True


def reuse(sh, code, la, case):
    """The same generator, asked again, gives the same circuit (and inputs stay as they are)."""
    qe, ge = full(code, ALL)
    k = code.n_logical_qubits
    gen = QECCircuitGenerator(code, qe, ge, la)
    seq = ["X" * k, "Z" * k, "X" * k]
    want = {s: generate_qec_circuit(code, qe, ge, s, la).gates for s in seq}
    kept = []
    for s in seq:
        c = gen.get_circuit(s)
        sh.count(transitions=1)
        sh.check(c.gates == want[s], "reuse:circuit", f"{s} after {len(kept)} circuits differs", case)
        kept.append((s, c))
    for s, c in kept:
        sh.check(c.gates == want[s], "reuse:overwritten", f"earlier circuit {s} changed", case)


def single(sh, item):
    """One error entry at a time: it, and nothing else, appears."""
    f, d, la = item
    code = C.make(f, d, 2)
    lo = "XZ"[la] * code.n_logical_qubits
    qe, ge = full(code, ALL)
    for table, other in ((qe, 0), (ge, 1)):
        for kind, entries in table.items():
            for key, val in entries.items():
                vals = [val] if len(val) > 3 else [val] + [{k: 0.25} for k in val]
                if len(val) > 3:
                    vals += [{k: 0.25} for k in list(val)[hash_pos(key) % 3::3]]
                for v in vals:
                    one = {kind: {key: v}}
                    case = (item, kind, key, tuple(v))
                    with sh.guard("single", case):
                        judge(sh, code, *((one, {}) if other == 0 else ({}, one)), lo, la, case)


def hash_pos(key):
    return sum(key) if isinstance(key, tuple) else key


CUSTOM = [
    (["ZZI", "IZZ"], ["XXX", "ZII"]), (["XXI", "IXX"], ["ZZZ", "XII"]), (["ZZ"], ["XX", "ZI"]), (["XX"], ["ZZ", "XI"]),
    (["XXXX", "ZZZZ"], ["XXII", "ZIZI", "XIXI", "ZZII"]), (["XZ"], ["ZZ", "XI"]), (["ZX"], ["XX", "IZ"][::-1]),
    (["XZZX"], ["XIIX", "ZIII", "XIXI", "IZII", "IXIX", "IIZI"][:2]),
    (["ZZI"], ["XXI", "ZII", "IIX", "IIZ"]), (["XZX", "ZXZ"][:1], ["ZZI", "XII"]),
]


def custom(sh, item):
    """Codes given by operators, incl. mixed generators; edges without schedule."""
    i, la = item
    ss, ls = CUSTOM[i]
    for rounds in (1, 2, 3):
        code = LatticeCode.from_operators([string_to_pauli(s) for s in ss], [string_to_pauli(s) for s in ls], rounds)
        for lo in choices(code):
            case = (item, rounds, lo)
            logs = [C.op(code.logical_ops[j]) for j in C.logical_indices(lo)]
            if any(C.anti(a, b) for a in logs for b in logs) or (not la and not separable(code, lo)):
                continue
            if any(C.anti(a, C.op(s)) for a in logs for s in code.stabilisers):
                continue
            with sh.guard("custom", case):
                algebra(sh, code, lo, la, case)
                for kinds in KINDS:
                    qe, ge = full(code, kinds)
                    judge(sh, code, qe, ge, lo, la, (case, kinds), noiseless=not kinds)


def edited(sh, item):
    """Codes with faulty qubits removed: some generators have no schedule any more."""
    f, d, q, t = item
    n = C.PARAMS[f](d)[0]
    for idx in [(q,)] + [(q, p) for p in range(q + 1, n) if d == 2 or t or (q + p) % 7 == 0]:
        code = C.make(f, d, 2)
        try:
            apply(code, faulty_qubits=list(idx))
        except (NoLogicalOperatorError, IndexError):
            continue
        for lo, la in (("X", False), ("Z", True)):
            case = (item, idx, lo)
            with sh.guard("edited", case):
                for kinds, part in ((("pauli", "measurement"), None), (("CX", "CZ"), None), (("erasure", "pauli"), "zeros"), (ALL, None)):
                    judge(sh, code, *full(code, kinds, part), lo, la, (case, kinds), noiseless=kinds == ALL)
                algebra(sh, code, lo, la, case)
        sh.count(edited=1)


def refused(sh, item):
    f, d = item
    code = C.make(f, d, 2)
    lat = code.lattice
    nd, ns, n = len(lat.dataqubits), len(lat.stabgens), len(lat.equbits)
    lo = "X" * code.n_logical_qubits
    ok, bad = [], []
    for q in [*range(-1, n + 1)]:
        isd, iss = 0 <= q < nd, nd <= q < nd + ns
        (ok if isd else bad).append(({"pauli": {q: {"x": 0.1}}}, {}))
        (ok if isd else bad).append(({"erasure": {q: {"p": 0.1}}}, {}))
        (ok if iss else bad).append(({"measurement": {q: {"p": 0.1}}}, {}))
        for g in "HRM":
            (ok if iss else bad).append(({}, {g: {q: {"x": 0.1}}}))
        for p in range(n):
            good = iss and 0 <= p < nd
            for g in ("CX", "CZ"):
                (ok if good else bad).append(({}, {g: {(q, p): {"xz": 0.1}}}))
    bad += [({"pauli": {0: {k: 0.1}}}, {}) for k in ("X", "p", "xx", "")]
    bad += [({"erasure": {0: {k: 0.1}}}, {}) for k in ("x", "P")]
    bad += [({"measurement": {nd: {k: 0.1}}}, {}) for k in ("x", "P")]
    bad += [({}, {"H": {nd: {k: 0.1}}}) for k in ("X", "p", "xx")]
    bad += [({}, {"CX": {(nd, 0): {k: 0.1}}}) for k in ("x", "ii", "XX", "p")]
    bad += [({}, {"CZ": {(nd, 0, 1): {"xx": 0.1}}}), ({}, {"CX": {(nd,): {"xx": 0.1}}})]
    bad += [({k: {}}, {}) for k in ("CX", "H", "Pauli", "foo")] + [({}, {k: {}}) for k in ("pauli", "erasure", "S", "h", "Y")]
    # one invalid entry among valid ones
    bad += [({"pauli": {q: {"x": 0.1} for q in range(nd + 1)}}, {}), ({"pauli": {0: {"x": 0.1, "q": 0.2}}}, {})]
    for (qe, ge), want in [(b, False) for b in bad] + [(o, True) for o in ok]:
        sh.count(transitions=1)
        case = (item, qe, ge)
        try:
            generate_qec_circuit(code, qe, ge, lo)
            got = True
        except (ValueError, KeyError):
            got = False
        sh.check(got == want, "refused:errors", f"error configuration {qe} {ge} {'accepted' if got else 'refused'}", case)
    for s in ("", "Y" * len(lo), lo + "X", "x" * len(lo), [-1] * len(lo), [2 * len(lo)] * len(lo)):
        try:
            generate_qec_circuit(code, {}, {}, s)
            sh.fail("refused:logical-choice", f"{s!r} accepted", (item, s))
        except ValueError:
            pass
    # Generators with a Y factor cannot be measured, and say so.
    y = LatticeCode.from_operators([string_to_pauli("YY")], [string_to_pauli("XX"), string_to_pauli("YI")], 1)
    try:
        generate_qec_circuit(y, {}, {}, "X")
        sh.fail("refused:Y", "a code with Y factors was accepted", item)
    except (ValueError, NotImplementedError):
        pass
    sh.count(states=1, refused=len(bad))
    sh.case(item)


def finish(n, tier):
    assert n["refused"] > 100 and n["states"] > 1000 and n["edited"] > 10, n
    return {}
