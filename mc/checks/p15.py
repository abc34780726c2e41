"""P15: decoders weigh errors by the probabilities given."""
import warnings
from copy import deepcopy
from itertools import product
from math import inf, isnan, log, nan

import numpy as np

from plaquette.codes import LatticeCode
from plaquette.codes.latticebase import DataVertex, StabGenVertex
from plaquette.decoders import FusionBlossomDecoder, PyMatchingDecoder, UnionFindDecoder, UnionFindNoWeights
from plaquette.syngraph import SyndromeGraphManager
from plaquette.syngraph.weights import WeightComputation

from .. import codes as C
from .p14 import key_of

LEVEL = "model_checking"
RULE = ("state = (code, error data or explicit weights, decoder, weighted flag); transition = one elementary error whose weight is read off the decoder "
        "built by the real code; all assignments of entries from a grid to all qubits of small codes, every entry on every qubit of larger codes, all combinations "
        "of kinds and flags; non-trivial = distinct such state")
ASSUMPTIONS = ["the weight of an error of probability p is ln((1-p)/p), with 1e-15 in place of zero Pauli probabilities where the documentation says so"]
CHUNK = 1
TINY = 1e-15
DECODERS = dict(pymatching=PyMatchingDecoder, fusion=FusionBlossomDecoder, uf=UnionFindDecoder, ufnw=UnionFindNoWeights)
WEIGHTED = ("pymatching", "fusion", "uf")
ENTRIES = [None, {}, {"x": 0.1}, {"y": 0.07}, {"z": 0.2}, {"x": 0.0, "z": 0.03}, {"x": 0.1, "y": 0.02}, {"y": 0.05, "z": 0.3}, {"x": 0.01, "z": 0.44},
           {"x": 0.11, "y": 0.13, "z": 0.17}, {"x": 0.25, "y": 0.125, "z": 0.25}, {"x": 1e-6, "y": 1e-9, "z": 1e-4}, {"y": 0.4999}, {"x": 0}, {"x": np.float64(0.3)},
           {"x": 1e-18, "y": 1e-18, "z": 1e-30}]


def plan(tier):
    t = tier == "thorough"
    fams = [("repetition", 3), ("planar", 2), ("rotated", 2), ("xzzx", 2), ("rotated", 3), ("planar", 3), ("toric", 2), ("shor", 9)] + [("planar", 4), ("rotated", 5), ("toric", 3)] + [("planar", 5), ("rotated", 6), ("toric", 4), ("xzzx", 5), ("repetition", 9)] * t
    items = [("entries", (f, d, r)) for f, d in fams if f != "shor" for r in (1, 2) + (3,) * t]
    items += [("entries", x) for x in [("repetition", 3, 12), ("rotated", 2, 11), ("rotated", 3, 10), ("repetition", 35, 1), ("repetition", 11, 2)]]
    items += [("grid", (f, d, a)) for f, d in [("repetition", 3), ("rotated", 2)] for a in range(5)]
    items += [("kinds", (f, d)) for f, d in fams if f != "shor"]
    items += [("explicit", (f, d)) for f, d in fams if f != "shor"]
    items += [("edited", q) for q in range(13)]
    items += [("direct", (f, d)) for f, d in [("repetition", 3), ("planar", 2), ("rotated", 3), ("xzzx", 2)]]
    items += [("refused", (f, d)) for f, d in [("repetition", 3), ("planar", 2), ("rotated", 3)]]
    return items


def ln(p):
    return inf if p == 0 else log((1 - p) / p)


def expected(code, ed, tiny=True):
    """{('X'|'Z', data qubit)|('M', generator): weight}"""
    out = {}
    d_of = {v.equbit_idx: v.dataqubit_idx for v in code.lattice.dataqubits}
    s_of = {v.equbit_idx: v.stabgen_idx for v in code.lattice.stabgens}
    for e, i in d_of.items():
        given = ed.get("pauli", {}).get(e) or {}
        p = {k: float(given.get(k, 0)) or (TINY if tiny else 0.0) for k in "xyz"}
        out["X", i] = ln(p["x"] + p["y"])
        out["Z", i] = ln(p["z"] + p["y"])
    for e, i in s_of.items():
        out["M", i] = ln(float((ed.get("measurement", {}).get(e) or {}).get("p", 0)))
    return out


def close(a, b):
    return (isnan(a) and isnan(b)) or a == b or abs(a - b) <= 1e-9 * max(1.0, abs(b))


def judge(sh, g, want, case):
    sh.count(states=1, transitions=len(g.edges))
    sh.case(case)
    for e in g.edges:
        k = key_of(e)[:2]
        w = float(np.asarray(e.weight).ravel()[0])
        if not sh.check(close(w, want[k]), "weight:value", f"error {k} in round {e.time_step} has weight {w}, expected {want[k]}", case):
            return
    for comp in g.components_with_edges:
        for i, w in zip(comp.parent_edge_idx, comp.edge_weights):
            k = key_of(g.edges[int(i)])[:2]
            if not sh.check(close(float(w), want[k]), "weight:component", f"decoder is given weight {w} for error {k}, expected {want[k]}", case):
                return


def build(cls, code, ed, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cls.from_code(code, ed, **kw)


def from_errors(sh, code, ed, case, names=WEIGHTED, manager=True):
    want = expected(code, ed)
    keep = deepcopy(ed)
    for name in names:
        with sh.guard("build", (case, name)):
            dec = build(DECODERS[name], code, ed)
            judge(sh, dec.synmgr.sgraph, want, (case, name))
        sh.check(ed == keep, "build:modified", f"building a decoder changed the error data from {keep} to {ed}", case)
    if manager:
        with sh.guard("manager", case):
            judge(sh, SyndromeGraphManager(code, ed).sgraph, expected(code, ed, tiny=False), (case, "manager"))


def base_errors(code):
    ed = {"pauli": {}, "measurement": {}}
    for v in code.lattice.dataqubits:
        q = v.equbit_idx
        ed["pauli"][q] = {"x": 0.01 + 0.001 * q, "y": 0.02 + 0.0007 * q, "z": 0.03 + 0.0011 * q}
    for v in code.lattice.stabgens:
        ed["measurement"][v.equbit_idx] = {"p": 0.05 + 0.003 * v.equbit_idx}
    return ed


def entries(sh, item):
    f, d, r = item
    code = C.make(f, d, r)
    for v in code.lattice.dataqubits:
        for k, entry in enumerate(ENTRIES):
            ed = base_errors(code)
            if entry is None:
                del ed["pauli"][v.equbit_idx]
            else:
                ed["pauli"][v.equbit_idx] = dict(entry)
            from_errors(sh, code, ed, (item, "data", v.equbit_idx, k), (WEIGHTED[k % 3],))
    for v in code.lattice.stabgens:
        for k, entry in enumerate((None, {}, {"p": 0}, {"p": 0.3}, {"p": 1e-7}, {"p": 1e-18}, {"p": 0.4999}, {"p": np.float64(0.2)})):
            ed = base_errors(code)
            if entry is None:
                del ed["measurement"][v.equbit_idx]
            else:
                ed["measurement"][v.equbit_idx] = dict(entry)
            from_errors(sh, code, ed, (item, "stab", v.equbit_idx, k), (WEIGHTED[k % 3],))


def grid(sh, item):
    """All assignments of entries to all qubits."""
    f, d, a = item
    code = C.make(f, d, 2)
    pool = [ENTRIES[i] for i in (0, 2, 3, 9, 11)]
    meas = [None, {"p": 0.1}, {"p": 0.03}]
    qs = [v.equbit_idx for v in code.lattice.dataqubits]
    ss = [v.equbit_idx for v in code.lattice.stabgens]
    n = 0
    for rest in product(pool, repeat=len(qs) - 1):
        for ms in product(meas, repeat=len(ss)):
            n += 1
            ed = {"measurement": {s: dict(m) for s, m in reversed(list(zip(ss, ms))) if m is not None},
                  "pauli": {q: dict(e) for q, e in reversed(list(zip(qs, (pool[a],) + rest))) if e is not None}}
            from_errors(sh, code, ed, (item, ed), (WEIGHTED[n % 3],), manager=False)


def kinds(sh, item):
    """Every combination of kinds of errors and flags, for every decoder."""
    f, d = item
    for r in (1, 3):
        code = C.make(f, d, r)
        full = base_errors(code)
        full["erasure"] = {v.equbit_idx: {"p": 0.1 + 0.01 * v.equbit_idx} for v in code.lattice.dataqubits}
        part = {"erasure": {0: {"p": 0.3}}}
        for present in product((0, 1, 2), repeat=3):
            ed = {}
            for k, m in zip(("pauli", "erasure", "measurement"), present):
                if m == 1:
                    ed[k] = deepcopy(full[k])
                elif m == 2:
                    ed[k] = deepcopy(dict(list(full[k].items())[:1]))
            for name, cls in DECODERS.items():
                for flag in (None, True, False):
                    case = (item, r, present, name, flag)
                    keep = deepcopy(ed)
                    weighted = flag is not False
                    if name == "ufnw" and weighted:
                        try:
                            build(cls, code, ed, weighted=flag)
                            sh.fail("refuse:unsupported", "weights were given to a decoder that does not support them, without complaint", case)
                        except ValueError:
                            sh.count(refused=1)
                            sh.case(case)
                        continue
                    want = expected(code, ed)
                    if not weighted:
                        want = dict.fromkeys(want, nan)
                    with sh.guard("kinds", case):
                        judge(sh, build(cls, code, ed, weighted=flag).synmgr.sgraph, want, case)
                    sh.check(ed == keep, "build:modified", "building a decoder changed the error data", case)
        for name, cls in DECODERS.items():
            for flag in (None, False):
                case = (item, r, "none", name, flag)
                with sh.guard("none", case):
                    judge(sh, build(cls, code, None, weighted=flag).synmgr.sgraph, dict.fromkeys(expected(code, {}), nan), case)


def explicit(sh, item):
    f, d = item
    for r in (1, 2):
        code = C.make(f, d, r)
        n, s = code.n_data_qubits, code.n_stabgens
        vals = dict(pauli_x=[1.5, 1, inf, np.arange(n) + 1.25], pauli_z=[2.5, inf, 0.75, 3.5 + 0.5 * np.arange(n)[::-1]], measurement=[3.0, inf, np.arange(s) * 0.25 + 0.5])
        for n_case, (a, b, c) in enumerate(product(*vals.values())):
            want = {("X", q): float((np.ones(n) * a)[q]) for q in range(n)}
            want |= {("Z", q): float((np.ones(n) * b)[q]) for q in range(n)}
            want |= {("M", q): float((np.ones(s) * c)[q]) for q in range(s)}
            w = dict(pauli_x=a, pauli_z=b, measurement=c)
            keep = deepcopy(w)
            for name in WEIGHTED:
                for flag in (None, True, False):
                    case = (item, r, n_case, name, flag)
                    with sh.guard("explicit", case):
                        dec = build(DECODERS[name], code, None, weights=w, weighted=flag)
                        judge(sh, dec.synmgr.sgraph, want if flag is not False else dict.fromkeys(want, nan), case)
                    sh.check(all(np.array_equal(w[k], keep[k]) for k in w), "build:modified", "building a decoder changed the given weights", case)


class WithErasures(WeightComputation):
    erasure_weights = True


def direct(sh, item):
    """The weight computation by itself, with erasures counted and not."""
    code = C.make(*item, 2)
    ds, ss = list(code.lattice.dataqubits), list(code.lattice.stabgens)
    paulis, erasures = [None, {}, {"x": 0.1}, {"y": 0.07}, {"x": 0.02, "y": 0.03, "z": 0.05}, {"z": 0.45}], [None, {}, {"p": 0.1}, {"p": 0.6}]
    every = list(product(paulis, erasures))
    for shift in range(len(every)):
        ed = {"erasure": {}, "pauli": {}, "measurement": {v.equbit_idx: {"p": 0.05 + 0.01 * i} for i, v in enumerate(ss[shift % 3:])}}
        for i, v in enumerate(ds):
            for kind, entry in zip(("pauli", "erasure"), every[(i + shift) % len(every)]):
                if entry is not None:
                    ed[kind][v.equbit_idx] = dict(entry)
        for cls in (WeightComputation, WithErasures):
            case = (item, shift, cls.__name__)
            sh.case(case)
            with sh.guard("direct", case):
                calc, keep = cls(code, ed), deepcopy(ed)
                probs, weights, again = calc.get_edge_probab(), calc.get_edge_weights(), calc.get_edge_weights()
                for v in ds:
                    p = ed["pauli"].get(v.equbit_idx, {})
                    e = ed["erasure"].get(v.equbit_idx, {}).get("p", 0) / 2 if cls is WithErasures else 0
                    for kind, k in (("pauli_x", "x"), ("pauli_z", "z")):
                        a = p.get(k, 0) + p.get("y", 0)
                        want = a * (1 - e) + e * (1 - a)
                        i = v.dataqubit_idx
                        sh.count(transitions=1)
                        sh.check(close(float(probs[kind][i]), want) and close(float(weights[kind][i]), ln(want)) and close(float(again[kind][i]), ln(want)), "direct:qubit",
                                 f"{kind} of qubit {v.equbit_idx}: probability {probs[kind][i]}, weight {weights[kind][i]}, expected {want} and {ln(want)}", case)
                for v in ss:
                    want = ed["measurement"].get(v.equbit_idx, {}).get("p", 0)
                    i = v.stabgen_idx
                    sh.check(close(float(probs["measurement"][i]), want) and close(float(weights["measurement"][i]), ln(want)), "direct:measurement",
                             f"measurement of generator {i}: probability {probs['measurement'][i]}, weight {weights['measurement'][i]}, expected {want}", case)
                sh.check(ed == keep, "build:modified", "computing weights changed the error data", case)


def edited(sh, q):
    """Codes with a removed data qubit: error data refer to the remaining qubits."""
    code = C.make("planar", 3, 2)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code.apply_fabrication_errors(faulty_qubits=[q])
    except ValueError:
        sh.count(refused=1)
        return
    ed = base_errors(code)
    from_errors(sh, code, ed, ("edited", q))
    ed = {"pauli": {v.equbit_idx: {"x": 0.1 + 0.001 * v.equbit_idx} for v in list(code.lattice.dataqubits)[::2]}}
    from_errors(sh, code, ed, ("edited", q, "part"))


def refused(sh, item):
    f, d = item
    code = C.make(f, d, 2)
    good = base_errors(code)
    data = [v.equbit_idx for v in code.lattice.equbits if isinstance(v, DataVertex)]
    stabs = [v.equbit_idx for v in code.lattice.equbits if isinstance(v, StabGenVertex)]
    others = [i for i in range(-2, len(code.lattice.equbits) + 2)]
    bad = []
    for i in others:
        if i not in data:
            bad.append(("pauli", {"pauli": {i: {"x": 0.1}}}))
            bad.append(("erasure", {"erasure": {i: {"p": 0.1}}}))
        if i not in stabs:
            bad.append(("measurement", {"measurement": {i: {"p": 0.1}}}))
    bad += [("unknown", {"pauly": {}}), ("key", {"pauli": {0: {"X": 0.1}}}), ("key", {"pauli": {0: {"p": 0.1}}}), ("key", {"erasure": {0: {"x": 0.1}}}),
            ("key", {"measurement": {stabs[0]: {"x": 0.1}}}), ("gate", {"H": {0: {"x": 0.1}}}), ("gate", {"CX": {(0, stabs[0]): {"xx": 0.1}}}), ("gate", {"CZ": {}}),
            ("large", {"pauli": {0: {"x": 0.6}}}), ("large", {"pauli": {0: {"x": 0.3, "y": 0.3}}}), ("large", {"pauli": {0: {"x": 1.0}}}),
            ("large", {"measurement": {stabs[0]: {"p": 0.8}}}), ("large", {"measurement": {stabs[-1]: {"p": 1.0}}}), ("large", {"pauli": {0: {"x": 1.5}}})]
    for what, ed in bad:
        for base in (False, True):
            e = deepcopy(good) if base else {}
            for k, v in ed.items():
                e[k] = {**e.get(k, {}), **v} if isinstance(v, dict) else v
            for name in WEIGHTED:
                case = (item, what, ed, base, name)
                sh.case(case)
                sh.count(states=1)
                try:
                    with np.errstate(all="ignore"):
                        build(DECODERS[name], code, e)
                    sh.fail(f"refuse:{what}", "meaningless error data were accepted", case)
                except (ValueError, IndexError, KeyError):
                    sh.count(refused=1)
    w = dict(pauli_x=1.0, pauli_z=1.0, measurement=1.0)
    for name, cls in DECODERS.items():
        calls = [("both", lambda: build(cls, code, good, weights=w)), ("nothing", lambda: build(cls, code, None, weighted=True)),
                 ("negative", lambda: build(cls, code, None, weights={**w, "pauli_x": -1.0})), ("negative", lambda: build(cls, code, None, weights={**w, "measurement": -0.5})),
                 ("mixed", lambda: build(cls, code, None, weights={**w, "pauli_x": nan, "pauli_z": nan}))]
        for what, call in calls:
            case = (item, what, name)
            sh.case(case)
            try:
                call()
                sh.fail(f"refuse:{what}", "contradictory weights were accepted", case)
            except ValueError:
                sh.count(refused=1)


def finish(n, tier):
    assert n["states"] > 3000 and n["refused"] > 100, n
    return {}
