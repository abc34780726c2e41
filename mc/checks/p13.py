"""P13: every fault shows up as exactly the syndrome, toggle and erasure it causes."""
from itertools import combinations, product

import numpy as np

import plaquette
from plaquette.circuit import Circuit
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.codes import LatticeCode
from plaquette.device import Device, MeasurementSample
from plaquette.pauli import string_to_pauli

from .. import codes as C
from .. import qec, qecref
from ..choice import explore
from .p12 import choices, separable

LEVEL = "model_checking"
RULE = ("state = (code, rounds, logical operators, ancilla flag, set of faults); transition = one executed fault; every single fault location and kind, "
        "every pair of data/measurement faults for the small codes, every unit result vector for the splitting; all outcomes of the random "
        "measurements on the smallest codes; non-trivial = distinct fault set or result vector")
ASSUMPTIONS = ["the expected effect of a fault is computed by Pauli propagation over the generated circuit (mc/qecref.py), data and measurement faults by the code's algebra"]
CHUNK = 1
SHOTS = 3


def plan(tier):
    t = tier == "thorough"
    items = []
    fams = [("repetition", 3), ("repetition", 5), ("planar", 2), ("planar", 3), ("rotated", 2), ("rotated", 3), ("xzzx", 3), ("toric", 2), ("toric", 3), ("five", 5), ("shor", 9)]
    fams += [("planar", 4), ("rotated", 5), ("toric", 4)] * t
    for f, d in fams:
        for r in (1, 2, 3):
            for la in (False, True):
                items.append(("split", (f, d, r, la)))
    # At least as many rounds as qubits, generators or results per round
    items += [("split", (f, d, r, la)) for f, d, r in [("repetition", 3, 4), ("repetition", 3, 7), ("rotated", 2, 4), ("planar", 2, 5), ("five", 5, 6), ("repetition", 5, 9), ("rotated", 2, 9), ("repetition", 3, 12), ("rotated", 2, 16), ("planar", 3, 11), ("rotated", 5, 11), ("rotated", 11, 1), ("repetition", 131, 2)] for la in (False, True)]
    items += [("split_custom", i) for i in range(len(UNEVEN))]
    for f, d, r in [("repetition", 3, 3), ("planar", 2, 2), ("rotated", 2, 3), ("rotated", 3, 2), ("xzzx", 3, 2), ("five", 5, 2), ("toric", 2, 2), ("planar", 3, 2)]:
        for la in (False, True):
            for lo in ("X", "Z"):
                for backend in ("clifford", "stim"):
                    parts = 8 if backend == "clifford" else 2
                    for part in range(parts):
                        if backend == "clifford" and not t and (f, d) in (("planar", 3), ("toric", 2), ("xzzx", 3)) and (part + la + (lo == "X")) % 4:
                            continue
                        items.append(("faults", (f, d, r, la, lo, backend, part, parts)))
    for f, d, r in [("repetition", 3, 2), ("planar", 2, 2), ("rotated", 2, 2), ("rotated", 3, 1), ("five", 5, 1)] + [("planar", 3, 1), ("xzzx", 3, 2), ("toric", 2, 1)] * t:
        for lo in ("X", "Z"):
            for backend in ("clifford", "stim"):
                items.append(("pairs", (f, d, r, lo, backend)))
    items += [("erased", (f, d, r, b)) for f, d in [("repetition", 3), ("planar", 2), ("rotated", 2), ("five", 5)] + [("rotated", 3), ("planar", 3), ("toric", 2)] for r in (1, 2, 3) for b in ("clifford", "stim")]
    for f, d in [("repetition", 3), ("planar", 2), ("rotated", 2)] + [("rotated", 3), ("five", 5)] * t:
        for la in (False, True):
            for lo in ("X", "Z"):
                items.append(("outcomes", (f, d, la, lo)))
    return items


def logical(code, lo):
    return lo * code.n_logical_qubits


def expect_split(lay, raw, erased, n):
    bits = lambda s: int(np.bitwise_xor.reduce([int(raw[i]) for i in s]))
    stab = np.array([[bits(s) for s in row] for row in lay.stab]).reshape(lay.R + 1, lay.S)
    ini, fin = np.array([bits(s) for s in lay.initial]), np.array([bits(s) for s in lay.final])
    return dict(logical_op_initial=ini, logical_op_final=fin, logical_op_toggle=ini ^ fin, stabilizer_gen=stab,
                syndrome=stab[1:] ^ stab[:-1], erased_qubits=None if erased is None else np.array(erased).reshape(lay.R, n))


def same(sample, want):
    for k, w in want.items():
        g = getattr(sample, k)
        if w is None or g is None:
            if not (w is None and g is None):
                return k
        elif np.shape(g) != np.shape(w) or (np.asarray(g).astype(int) != np.asarray(w).astype(int)).any():
            return k
    return None


def split(sh, item):
    f, d, r, la = item
    split_code(sh, C.make(f, d, r), la, item)


UNEVEN = [(["ZZI", "IZZ"], ["XXX", "IIZ"]), (["XXI", "IXX"], ["XII", "ZZZ"]), (["XXXX", "ZZZZ"], ["XXII", "ZIZI", "XIXI", "ZZII"]),
          (["ZZZ"], ["XXI", "ZII", "IXX", "IIZ"]), (["ZZIII", "IZZII", "IIZZI", "IIIZZ"], ["XXXXX", "ZIIII"]), (["ZZII"], ["XXII", "ZIII", "IIXI", "IIZI", "IIIX", "IIIZ"])]


def split_custom(sh, i):
    ss, ls = UNEVEN[i]
    for r in (1, 2):
        for la in (False, True):
            split_code(sh, LatticeCode.from_operators([string_to_pauli(s) for s in ss], [string_to_pauli(s) for s in ls], r), la, (UNEVEN[i], r, la))


def split_code(sh, code, la, item):
    n = code.n_data_qubits
    w = [len(v.edges) for v in code.lattice.logical_ops]
    byset = {}
    for c in product(*[(2 * i, 2 * i + 1) for i in range(code.n_logical_qubits)]):
        byset.setdefault(sum(w[i] for i in c), set()).add(tuple(w[i] for i in c))
    for lo in choices(code):
        if not isinstance(lo, str) and la:
            continue
        lay = qec.Layout(code, lo, la)
        N = lay.total
        idx = list(C.logical_indices(lo))
        per_qubit = isinstance(lo, str)
        sums = sum(w[i] for i in idx)
        # Without saying which operators were measured, the number of results has to tell.
        ambiguous = not la and not (per_qubit and byset.get(sums) == {tuple(w[i] for i in idx)})
        vectors = [()] + [(i,) for i in range(N)] + [tuple(range(N)), tuple(range(0, N, 2)), tuple(range(0, N, 3))]
        for vec in vectors:
            raw = np.zeros(N, dtype=(bool, int, "u1")[len(vec) % 3])
            raw[list(vec)] = 1
            for kw in ({}, {"logical_ops": lo}):
                if la and kw:
                    continue
                sh.count(transitions=1)
                sh.case((item, lo, vec, bool(kw)))
                keep = raw.copy()
                er = None if len(vec) == 1 else np.arange(code.n_rounds * n) % 3 == len(vec) % 3
                with sh.guard("split", (item, lo, vec)):
                    try:
                        got = MeasurementSample.from_code_and_raw_results(code, raw, er, la, **kw)
                    except ValueError as e:
                        sh.check(ambiguous and not kw, "split:refused", f"{e}", (item, lo, vec))
                        continue
                    if ambiguous and not kw and per_qubit:
                        # Another choice has the same number of results: a guess is only fine if it cannot be wrong.
                        if len(byset.get(sums, ())) > 1:
                            sh.fail("split:guess", f"{N} results fit several choices of logical operators", (item, lo))
                            continue
                    if ambiguous and not kw and not per_qubit:
                        continue
                    bad = same(got, expect_split(lay, keep, er, n))
                    sh.check(bad is None, f"split:{bad}", f"{bad} is wrong for result bits {vec}: {getattr(got, bad or 'syndrome')}", (item, lo, vec))
                    sh.check((raw == keep).all(), "split:modified", "raw results modified", (item, lo, vec))
        for k in range(code.n_rounds * n):
            er = np.zeros(code.n_rounds * n, dtype=bool)
            er[k] = True
            with sh.guard("split", (item, lo, "erasure", k)):
                got = MeasurementSample.from_code_and_raw_results(code, np.zeros(N, dtype="u1"), er, la, **({} if la else {"logical_ops": lo})).erased_qubits
                sh.count(transitions=1)
                sh.check(got.shape == (code.n_rounds, n) and got.sum() == 1 and got[k // n, k % n], "split:erasure", lambda: f"erasure {k} of {n} qubits became {np.argwhere(got)}", (item, lo, k))
        if not ambiguous:
            # Wrong amounts of results or erasure information are refused.
            for k in range(max(0, N - 4), N + 5):
                if k == N or (not la and (k - (code.n_rounds + 1) * code.n_stabgens) / 2 in byset):
                    continue
                try:
                    MeasurementSample.from_code_and_raw_results(code, np.zeros(k, dtype=int), None, la)
                    sh.fail("split:length", f"{k} results accepted, there are {N}", (item, lo))
                except (ValueError, IndexError):
                    pass
            for k in range(0, 2 * code.n_rounds * n + 1):
                if k == code.n_rounds * n:
                    continue
                try:
                    MeasurementSample.from_code_and_raw_results(code, np.zeros(N, dtype=int), np.zeros(k, dtype=bool), la)
                    sh.fail("split:erasure-length", f"{k} erasure bits accepted, there are {code.n_rounds * n}", (item, lo))
                except ValueError:
                    pass
    sh.count(states=1)


# ------------------------------------------------------------------ faults on the backends
def noisy(code):
    lat = code.lattice
    p1 = dict(x=0.01, y=0.02, z=0.03)
    qe = {"pauli": {v.equbit_idx: p1 for v in lat.dataqubits}, "erasure": {v.equbit_idx: {"p": 0.1} for v in lat.dataqubits},
          "measurement": {v.equbit_idx: {"p": 0.1} for v in lat.stabgens}}
    two = {a + b: 0.001 for a in "ixyz" for b in "ixyz" if a + b != "ii"}
    ge = {g: {v.equbit_idx: p1 for v in lat.stabgens} for g in "HRM"}
    for g in "XZ":
        ge["C" + g] = {(v.equbit_idx, e.data.equbit_idx): two for v in lat.stabgens for e in v.edges if e.factor.name == g}
    return qe, ge


PAIR = [a + b for a in "ixyz" for b in "ixyz"][1:]


def components(gates):
    """All single faults: (gate number, replacement instruction)."""
    out = []
    for i, (name, a) in enumerate(gates):
        if name == "E_PAULI":
            for k in range(3):
                out.append((i, (name, [float(k == j) for j in range(3)] + [a[3]])))
        elif name == "E_PAULI2":
            for k in range(15):
                out.append((i, (name, [float(k == j) for j in range(15)] + list(a[15:]))))
        elif name == "ERROR":
            out.append((i, (name, [1.0, *a[1:]])))
        elif name == "E_ERASE":
            out.append((i, (name, [1.0, a[1]])))
    return out


def build(gates, faults):
    """The circuit with exactly these faults happening (erasure points stay, silent)."""
    c = Circuit()
    faults = dict(faults)
    for i, (name, a) in enumerate(gates):
        if i in faults:
            name, a = faults[i]
        elif name == "E_ERASE":
            a = [0.0, a[1]]
        elif name in qec.NOISE:
            continue
        c.append(name, *a)
    return c


def expected(code, circ, lay):
    """Effect mask(s) of everything that surely happens in the circuit."""
    chans, erased = qecref.effects(circ.gates, lay.detectors() + lay.observables())
    base = 0
    for c in chans:
        for e, p in c:
            assert abs(p - 1) < 1e-9
            base ^= e
    options = {base}
    for p, x, z, _ in erased:
        if p:
            options = {o ^ e for o in options for e in (0, x, z, x ^ z)}
    return options


def run(circ, backend, shots):
    dev = Device(backend) if backend == "clifford" else Device(backend, batch_size=shots, stim_seed=5)
    for _ in range(shots):
        dev.run(circ)
        yield dev.get_sample()


def judge(sh, code, circ, lay, lo, la, backend, flags, options, case, shots, seen=None):
    for raw, er in run(circ, backend, shots):
        got = MeasurementSample.from_code_and_raw_results(code, raw, er, la, None if la else lo)
        bits = 0
        for i, b in enumerate([*np.asarray(got.syndrome).ravel(), *got.logical_op_toggle]):
            bits |= int(b) << i
        sh.count(transitions=1)
        if seen is not None:
            seen.add(bits)
        sh.check(bits in options, "faults:effect", lambda: f"{backend}: syndrome and toggles {decode(bits, lay)}, expected "
                 + " or ".join(decode(o, lay) for o in sorted(options)), case)
        ef = None if got.erased_qubits is None else [int(x) for x in np.asarray(got.erased_qubits).ravel()]
        sh.check(ef == flags, "faults:erasure", f"{backend}: erasure record {ef}, expected {flags}", case)
        par = expect_split(lay, np.asarray(raw).astype(int), er, code.n_data_qubits)
        bad = same(got, par)
        sh.check(bad is None, f"faults:split:{bad}", "sample does not match its raw results", case)
    sh.case(case)


def decode(bits, lay):
    nd = lay.R * lay.S
    return "{" + " ".join(f"s{i // lay.S}.{i % lay.S}" if i < nd else f"L{i - nd}" for i in range(bits.bit_length()) if bits >> i & 1) + "}"


def setup(f, d, r, lo, la):
    code = C.make(f, d, r)
    lo = logical(code, lo)
    gates = list(generate_qec_circuit(code, *noisy(code), lo, la).gates)
    return code, lo, gates, qec.Layout(code, lo, la)


def faults(sh, item):
    f, d, r, la, lo, backend, part, parts = item
    code, lo, gates, lay = setup(f, d, r, lo, la)
    if not la and not separable(code, lo):
        return
    points = [i for i, g in enumerate(gates) if g[0] == "E_ERASE"]
    comps = components(gates)
    if part == 0:
        comps = [None] + comps
    for k, comp in enumerate(comps):
        if k % parts != part:
            continue
        case = (item, comp)
        circ = build(gates, [comp] if comp else [])
        options = expected(code, circ, lay)
        flags = [int(comp is not None and comp[0] == i) for i in points]
        with sh.guard("faults", case):
            # An erased qubit is in a random state: all its effects are legal, and they do occur.
            many = len(options) > 1 and backend == "stim"
            seen = set()
            judge(sh, code, circ, lay, lo, la, backend, flags, options, case, 64 if many else 1 if backend == "clifford" else SHOTS, seen)
            if many:
                sh.check(seen == options, "faults:erasure-random", f"64 erasures only had effects {seen}", case)
        sh.count(states=1)


def algebraic(code, lay, faults_):
    """Faults (('d', qubit, letter) / ('m', generator)) present in every round."""
    stabs = [C.op(s) for s in code.stabilisers]
    logs = [C.op(code.logical_ops[i]) for i in lay.idx]
    bits = 0
    for kind, q, *letter in faults_:
        for r in range(lay.R):
            if kind == "d":
                o = ((1 << q) if letter[0] in "xy" else 0, (1 << q) if letter[0] in "zy" else 0)
                for i, s in enumerate(stabs):
                    bits ^= C.anti(o, s) << (r * lay.S + i)
                for i, l in enumerate(logs):
                    bits ^= C.anti(o, l) << (lay.R * lay.S + i)
            elif r < lay.R - 1:
                bits ^= 1 << (r * lay.S + q) | 1 << ((r + 1) * lay.S + q)
    return bits


def pairs(sh, item):
    """All pairs of certain data/measurement errors given through the error dictionaries."""
    f, d, r, lo, backend = item
    code = C.make(f, d, r)
    lo = logical(code, lo)
    la = sum(map(ord, lo)) % 2 == 0 if separable(code, lo) else True
    lay = qec.Layout(code, lo, la)
    lat = code.lattice
    single = [("d", v.dataqubit_idx, k) for v in lat.dataqubits for k in "xyz"] + [("m", v.stabgen_idx) for v in lat.stabgens] * (r > 1)
    for n in (1, 2):
        for fs in combinations(single, n):
            if n == 2 and fs[0][:2] == fs[1][:2]:
                continue
            qe = {"pauli": {}, "measurement": {}}
            for kind, q, *k in fs:
                if kind == "d":
                    qe["pauli"][lat.dataqubits[q].equbit_idx] = {k[0]: 1.0}
                else:
                    qe["measurement"][lat.stabgens[q].equbit_idx] = {"p": 1.0}
            case = (item, fs)
            with sh.guard("pairs", case):
                circ = generate_qec_circuit(code, qe, {}, lo, la)
                judge(sh, code, circ, lay, lo, la, backend, None, {algebraic(code, lay, fs)}, case, 1)
            sh.count(states=1)


def erased(sh, item):
    """Every set of certainly erased qubits (the others: never erased): the record says so."""
    f, d, r, backend = item
    code = C.make(f, d, r)
    data = [v.equbit_idx for v in code.lattice.dataqubits]
    n = len(data)
    sets = range(1 << n) if n <= 5 else [m ^ i for k in (0, 1) for m in {1 << j for j in range(n)} | {0} for i in (0, -1 % (1 << n))][::1 if n < 10 else 3]
    for m in sorted(set(sets)):
        circ = generate_qec_circuit(code, {"erasure": {q: {"p": float(m >> j & 1)} for j, q in enumerate(data)}}, {}, "X" * code.n_logical_qubits, True)
        with sh.guard("erased", (item, m)):
            for raw, er in run(circ, backend, 1):
                got = MeasurementSample.from_code_and_raw_results(code, raw, er, True).erased_qubits
                sh.count(transitions=1)
                want = [[m >> j & 1 for j in range(n)]] * r
                sh.check(np.asarray(got).astype(int).tolist() == want, "erased:record", f"erasures {np.asarray(got).astype(int).tolist()}, expected {want}", (item, m))
            sh.case((item, m))
        sh.count(states=1)


def outcomes(sh, item):
    """All outcomes of the random measurements: syndrome and toggles never depend on them."""
    f, d, la, lo = item
    code, lo, gates, lay = setup(f, d, 2 if f != "five" else 1, lo, la)
    if not la and not separable(code, lo):
        return
    comps = [c for c in components(gates) if c[1][0] != "E_ERASE"]
    # by effect: one representative of each distinct effect
    picked = {}
    for c in comps:
        picked.setdefault(next(iter(expected(code, build(gates, [c]), lay))), c)
    for eff, comp in sorted(picked.items())[:12 if f != "repetition" else 40]:
        circ = build(gates, [comp])
        # leave the (silent) erasure points out: they would only add branches
        seen = set()
        total = 0.0
        for p, (raw, er) in explore(lambda: next(iter(run(circ, "clifford", 1)))):
            got = MeasurementSample.from_code_and_raw_results(code, raw, er, la, None if la else lo)
            bits = sum(int(b) << i for i, b in enumerate([*np.asarray(got.syndrome).ravel(), *got.logical_op_toggle]))
            seen.add(tuple(int(x) for x in raw))
            total += p
            sh.count(transitions=1)
            sh.check(bits == eff, "outcomes:effect", lambda: f"outcomes {list(map(int, raw))}: {decode(bits, lay)}, expected {decode(eff, lay)}", (item, comp))
        sh.check(abs(total - 1) < 1e-6, "outcomes:total", f"{len(seen)} outcomes, probability {total}", (item, comp))
        sh.case((item, comp))
        sh.count(states=1, outcome_records=len(seen))


def finish(n, tier):
    assert n["outcome_records"] > 200 and n["states"] > 1000, n
    return {}
