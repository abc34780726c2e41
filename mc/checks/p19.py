"""P19: an experiment with few faults succeeds, and success is judged correctly."""
from itertools import combinations, product

import numpy as np

from plaquette.circuit.generator import generate_qec_circuit
from plaquette.decoders import decoderbase
from plaquette.device import MeasurementSample

from .. import codes as C
from .. import dec as D
from .. import qec
from .p12 import choices, separable
from .p13 import build, components, expected, logical, run
from .p15 import DECODERS

LEVEL = "model_checking"
RULE = ("state = (code, rounds, logical operators, ancilla flag, backend, set of faults, decoder); every set of data-qubit, measurement and erasure faults below half the distance is executed from circuit "
        "generation to the verdict, and larger sets are compared with the verdict that the code's algebra gives; every correction and toggle pattern of small codes is judged; "
        "non-trivial = distinct fault set, or (correction, toggle) pair")
ASSUMPTIONS = ["faults happen on data qubits between rounds and in measurements; faults inside the measurement circuits are not guaranteed to be corrected"]
CHUNK = 1


def plan(tier):
    t = tier == "thorough"
    items = [("verdict", (f, d)) for f, d in [("repetition", 3), ("rotated", 2), ("planar", 2), ("five", 5), ("rotated", 3), ("toric", 2), ("shor", 9)]]
    items += [("refused", 0)]
    sys = [("repetition", 3, 2, "stim", 1), ("repetition", 5, 2, "stim", 2), ("planar", 3, 1, "stim", 1), ("planar", 3, 2, "stim", 1), ("planar", 3, 3, "stim", 1), ("rotated", 3, 1, "stim", 2), ("rotated", 3, 2, "stim", 1),
           ("rotated", 3, 3, "stim", 1), ("xzzx", 3, 2, "stim", 1), ("toric", 3, 2, "stim", 1), ("toric", 2, 2, "stim", 1), ("five", 5, 2, "stim", 2), ("shor", 9, 2, "stim", 1), ("planar", 2, 2, "stim", 2), ("rotated", 4, 1, "stim", 1),
           ("rotated", 5, 1, "stim", 2),
           ("repetition", 3, 2, "clifford", 2), ("planar", 2, 2, "clifford", 1), ("rotated", 3, 1, "clifford", 1), ("rotated", 3, 2, "clifford", 1), ("five", 5, 1, "clifford", 1), ("xzzx", 3, 1, "clifford", 1), ("planar", 3, 1, "clifford", 1)]
    sys += [("repetition", 3, 11, "stim", 1), ("rotated", 3, 10, "stim", 1), ("repetition", 11, 2, "stim", 1), ("planar", 2, 10, "stim", 0)]
    sys += [("planar", 5, 1, "stim", 2), ("xzzx", 5, 1, "stim", 2), ("rotated", 5, 2, "stim", 2), ("toric", 4, 2, "stim", 1), ("planar", 4, 2, "stim", 1), ("repetition", 7, 2, "stim", 3), ("rotated", 3, 2, "stim", 2),
            ("planar", 3, 2, "clifford", 1), ("toric", 2, 2, "clifford", 1), ("shor", 9, 1, "clifford", 1), ("xzzx", 3, 2, "clifford", 1)] * t
    for f, d, r, b, e in sys:
        for k, (lo, la) in enumerate(product("XZ", (False, True))):
            if not t and d >= 4 and k not in (1, 2):
                continue
            parts = 6 if (e >= 2 and d >= 5 and f not in ("repetition", "five")) or (b == "clifford" and d == 3 and f != "repetition") else 2
            items += [("faults", (f, d, r, b, e, lo, la, p, parts)) for p in range(parts)]
    er = [("repetition", 3, 2, 2), ("planar", 3, 1, 1), ("planar", 3, 2, 1), ("rotated", 3, 2, 1), ("xzzx", 3, 1, 2), ("rotated", 3, 1, 2), ("toric", 3, 1, 1), ("planar", 2, 2, 1), ("shor", 9, 1, 1), ("rotated", 2, 2, 1)]
    er += [("planar", 3, 1, 2), ("toric", 3, 1, 2), ("rotated", 4, 1, 3)] * t
    items += [("erasures", (f, d, r, s, lo, la)) for f, d, r, s in er for lo, la in product("XZ", (False, True))]
    return items


def errordata(code):
    """Errors of equal probability everywhere (so that equal weights are right)."""
    lat = code.lattice
    return {"pauli": {v.equbit_idx: dict(x=0.02, y=0.02, z=0.02) for v in lat.dataqubits}, "erasure": {v.equbit_idx: {"p": 0.1} for v in lat.dataqubits},
            "measurement": {v.equbit_idx: {"p": 0.04} for v in lat.stabgens}}


def decoders(code, f):
    out = [("uf", D.quiet_build(DECODERS["uf"].from_code, code, errordata(code))), ("uf0", D.quiet_build(DECODERS["uf"].from_code, code, errordata(code), weighted=False)),
           ("ufnw", D.quiet_build(DECODERS["ufnw"].from_code, code, None)),
           ("pymatching", D.quiet_build(DECODERS["pymatching"].from_code, code, errordata(code))), ("fusion", D.quiet_build(DECODERS["fusion"].from_code, code, errordata(code), weighted=True))]
    return out


def distance(f, d):
    return {"five": 3, "shor": 3}.get(f, d)


def setup(f, d, r, lo, la):
    code = C.make(f, d, r)
    lo = logical(code, lo)
    gates = list(generate_qec_circuit(code, errordata(code), {}, lo, la).gates)
    return code, lo, gates, qec.Layout(code, lo, la)


def protected(f, lo, name, args):
    """The repetition code protects its logical X from nothing: leave Z faults out there."""
    return not (f == "repetition" and "X" in lo and name == "E_PAULI" and (args[1] or args[2]))


def verdict_of(sh, code, lay, lo, la, circ, backend, decs, small, case, options, shots=1):
    logs = [C.op(code.logical_ops[i]) for i in lay.idx]
    for raw, er in run(circ, backend, shots):
        got = MeasurementSample.from_code_and_raw_results(code, raw, er, la, None if la else lo)
        bits = 0
        for i, b in enumerate([*np.asarray(got.syndrome).ravel(), *got.logical_op_toggle]):
            bits |= int(b) << i
        if not sh.check(bits in options, "run:effect", "the run does not show the faults", case):
            return
        toggle = [bits >> (lay.R * lay.S + i) & 1 for i in range(len(logs))]
        for name, dec in decs:
            era = got.erased_qubits
            if name == "pymatching":
                if era is not None and np.any(era):
                    continue
            corr = dec.decode(era, got.syndrome)
            ok = bool(decoderbase.check_success(code, corr, got.logical_op_toggle, lo))
            want = [C.anti(C.op(corr), l) for l in logs] == toggle
            sh.count(transitions=1, succeeded=int(ok), failed=int(not ok))
            sh.case((case, name))
            sh.check(ok == want, "verdict", f"{name}: judged {'success' if ok else 'failure'} but the correction {'undoes' if want else 'does not undo'} the faults", (case, name))
            if small:
                sh.check(ok, "tolerance", f"{name}: fewer faults than half the distance, and the experiment failed", (case, name))


def faults(sh, item):
    f, d, r, backend, e, lo, la, part, parts = item
    code, lo, gates, lay = setup(f, d, r, lo, la)
    if not la and not separable(code, lo):
        return
    decs = decoders(code, f)
    dist = distance(f, d)
    comps = [c for c in components(gates) if c[1][0] != "E_ERASE" and protected(f, lo, *c[1])]
    sh.count(states=1)
    for j, fs in enumerate(c for k in range(e + 1) for c in combinations(comps, k)):
        if j % parts != part or len({i for i, _ in fs}) < len(fs):
            continue
        if f == "five" and backend == "stim" and len(fs) == 2 and j % 3:
            continue
        circ = build(gates, fs)
        # A Y error is one X and one Z error to these decoders, which treat them apart
        # except in the codes that mix them
        small = 2 * len(fs) < dist
        if f in ("xzzx", "five"):
            small = 2 * sum(2 if n == "E_PAULI" and a[1] else 1 for _, (n, a) in fs) < dist
        case = (item[:7], fs)
        with sh.guard("faults", case):
            verdict_of(sh, code, lay, lo, la, circ, backend, decs, small, case, expected(code, circ, lay))


def erasures(sh, item):
    f, d, r, s, lo, la = item
    code, lo, gates, lay = setup(f, d, r, lo, la)
    if not la and not separable(code, lo) or (f == "repetition" and "X" in lo):
        return
    decs = decoders(code, f)
    comps = [c for c in components(gates) if c[1][0] == "E_ERASE"]
    sh.count(states=1)
    for fs in (c for k in range(1, s + 1) for c in combinations(comps, k)):
        case = (item, fs)
        circ = build(gates, fs)
        with sh.guard("erasures", case):
            verdict_of(sh, code, lay, lo, la, circ, "stim", decs, len(fs) < distance(f, d), case, expected(code, circ, lay), 12)


def verdict(sh, item):
    """Every correction (all of small codes, up to weight two of larger ones) and every toggle pattern."""
    f, d = item
    code = C.make(f, d, 1)
    n = code.n_data_qubits
    logs = [C.op(x) for x in code.logical_ops]
    ops = [(x, z) for x in range(1 << n) for z in range(1 << n)] if n <= 5 else [o for w in range(3) for o in C.paulis(n, w, "XYZ")]
    los = [None] + choices(code)
    if code.n_logical_qubits > 1:
        los = los[:1] + los[1::3]
    for k, (x, z) in enumerate(ops):
        row = np.array([x >> i & 1 for i in range(n)] + [z >> i & 1 for i in range(n)] + [k & 1], dtype="u1")
        for lo in los:
            idx = list(range(len(logs))) if lo is None else list(C.logical_indices(lo))
            want = [C.anti((x, z), logs[i]) for i in idx]
            for tog in product((0, 1), repeat=len(idx)):
                keep = row.copy()
                t = np.array(tog, dtype=bool if k & 2 else "u1")
                got = decoderbase.check_success(code, row if k & 4 else [row], t, *([] if lo is None else [lo]))
                sh.count(transitions=1)
                sh.check(bool(got) == (list(tog) == want) and np.array_equal(row, keep) and list(t) == list(tog), "verdict:algebra",
                         f"correction {C.op(row)} and toggles {tog} for {lo}: judged {bool(got)}", (item, (x, z), lo, tog))
        sh.case((item, x, z))
        if len(sh.viol) > 10:
            return
    sh.count(states=1)


def refused(sh, _):
    """A verdict on toggles or corrections of the wrong size is refused."""
    code = C.make("planar", 3, 1)
    n = code.n_data_qubits
    row = np.zeros(2 * n + 1, dtype="u1")
    bad = [(row, np.zeros(2, bool), "X"), (row, np.zeros(0, bool), "Z"), (row, np.zeros(1, bool), None), (row[2:], np.zeros(1, bool), "X"), (np.zeros(2 * n + 3, "u1"), np.zeros(1, bool), "X"),
           (row, np.zeros(1, bool), "Y"), (row, np.zeros(2, bool), "XX"), (row, np.zeros(1, bool), [2])]
    for i, (r, t, lo) in enumerate(bad):
        sh.case(("refused", i))
        try:
            decoderbase.check_success(code, r, t, lo)
            sh.fail("verdict:malformed", "a verdict on malformed data was given", (i, lo))
        except (ValueError, AssertionError, IndexError, TypeError, KeyError):
            sh.count(refusals=1)


def finish(n, tier):
    assert n["succeeded"] > 20000 and n["failed"] > 500 and n["refusals"], n
    return {}
