"""P01: Clifford gates act on stabiliser states exactly as the unitaries they name."""
from itertools import permutations, product

import numpy as np

from plaquette import pauli as P
from plaquette.device import QuantumState

from .. import dense as D
from .. import tab as T
from .. import wide as W

LEVEL = "model_checking"
RULE = ("state = complete tableau (destabilisers, stabilisers, signs); transition = one gate call "
        "on one argument list; every reachable tableau for n=1,2 (closure), all within the stated "
        "BFS depth for n>=3; distinct = distinct (tableau, call) pairs whose result differs from "
        "the input")
ASSUMPTIONS = [
    "reference: dense 2x2/4x4 unitaries conjugating Pauli matrices (mc/dense.py)",
    "n<=2 tableaux are enumerated completely; n=3..6 up to a BFS depth from |0...0>",
]
CHUNK = 1


def chunks(xs, k):
    xs = list(xs)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def plan(tier):
    t = tier == "thorough"
    items = [("tabs", (1, i, 1, None)) for i in range(1)]
    items += [("tabs", (2, i, 16, None)) for i in range(16)]
    items += [("tabs", (3, i, 32, 6 if t else 4)) for i in range(32)]
    items += [("tabs", (4, i, 32, 4 if t else 3)) for i in range(32)]
    items += [("tabs", (6, i, 16, 3 if t else 2)) for i in range(16)]
    items += [("lists", (n, i, 8)) for n in (2, 3) for i in range(8)]
    items += [("lists", (4, i, 8)) for i in range(8)]
    items += [("quantum_state", (n,)) for n in (1, 2, 3)]
    items += [("containers", (n, i, 8)) for n in (2, 3) for i in range(8)]
    items += [("outside", (n,)) for n in (1, 2, 3, 5)]
    items += [("wide", (n, f)) for n in W.SIZES + ((520,) if t else ()) for f in W.FAMILIES]
    return items


def step(sh, tab, name, args, sample=False):
    """Call the implementation once and compare every row of the result."""
    want = tab
    if name in T.G1:
        for q in args:
            want = T.ref_tab(name, (q,), want)
    else:
        for c, t in zip(args[::2], args[1::2]):
            want = T.ref_tab(name, (c, t), want)
    case = (name, args, [D.show(r) for r in tab])
    with sh.guard(f"gate:{name}", case):
        got = T.impl_gate(name, args, T.arr(tab))
        sh.count(transitions=1, traces_validated_against_impl=1)
        sh.case((tab, name, args), nontrivial=want != tab)
        g = D.tuples(got)
        sh.check(g == want, f"gate:{name}",
                 lambda: f"{name}{args}: got {[D.show(r) for r in g]}, want {[D.show(r) for r in want]}",
                 case)
        if sample:
            sh.sample(f"{name}{args} on {case[2]} -> {[D.show(r) for r in want]}")
    return want


def tabs(sh, item):
    n, part, parts, depth = item
    all_ = list(T.closure(n, depth=depth))
    if n <= 2 and len(all_) != T.group_tableaux(n):
        from ..core import HarnessError
        raise HarnessError(f"closure has {len(all_)} tableaux, group has {T.group_tableaux(n)}")
    # With a depth bound the frontier is included: its outgoing transitions are checked too.
    for tab in all_[part::parts]:
        sh.count(states=1)
        for k, (name, args) in enumerate(T.gates(n)):
            want = step(sh, tab, name, args, sample=k == 3)
            if n <= 3:
                sh.check(D.invariant(T.arr(want)) == "", "reference", "reference broke invariant")


def lists(sh, item):
    """Several targets in one call: every ordered selection, on varied tableaux."""
    n, part, parts = item
    tabs_ = T.states(n) if n <= 3 else list(T.closure(n, depth=2))
    if n == 3:
        tabs_ = tabs_[::4]
    for tab in tabs_[part::parts]:
        sh.count(states=1)
        for k in range(2, n + 1):
            for sel in product(range(n), repeat=k) if k < 4 else permutations(range(n), k):
                for g in T.G1:
                    step(sh, tab, g, sel)
        pairs = list(permutations(range(n), 2))
        for a in pairs:
            for b in pairs:
                for g in T.G2:
                    step(sh, tab, g, a + b)


def quantum_state(sh, item):
    """The object interface gives the same states, from the zero state, depth <= 3."""
    (n,) = item
    gs = [g for g in T.gates(n) if g[0] != "S"]
    q = {"X": "x", "Y": "y", "Z": "z", "H": "hadamard", "CX": "cx", "CZ": "cz"}
    zero = D.tuples(P.zero_state(n))
    want0 = tuple(tuple(int(j == i) for j in range(2 * n + 1)) for i in range(2 * n))
    sh.check(zero == want0, "zero_state", f"zero_state({n}) = {zero}", n)
    depth = 3 if n < 3 else 2

    def rec(hist, tab):
        with sh.guard("quantum_state", hist):
            s = QuantumState(n)
            for name, args in hist:
                getattr(s, q[name])(*args)
            sh.count(transitions=1, traces_validated_against_impl=1)
            sh.case((n, tuple(hist)))
            sh.check(D.tuples(np.asarray(s.tableau)) == tab, "quantum_state",
                     lambda: f"history {hist}: {D.tuples(s.tableau)} want {tab}", hist)
            sh.check(s.number_of_qubits == n, "quantum_state:n", f"{s.number_of_qubits} qubits, not {n}")
        if len(hist) < depth:
            for g in gs:
                rec(hist + [g], T.ref_tab(*g, tab))

    rec([], zero)


CONTAINERS = {
    "tuple": tuple, "array": np.array, "iterator": iter, "generator": lambda a: (q for q in a), "keys": lambda a: dict.fromkeys(a).keys(),
    "range": lambda a: range(a[0], a[-1] + 1) if list(a) == list(range(a[0], a[-1] + 1)) else list(a),
}


def containers(sh, item):
    """Qubits may be listed in any kind of container."""
    n, part, parts = item
    q = {"X": "x", "Y": "y", "Z": "z", "H": "hadamard", "CX": "cx", "CZ": "cz"}
    tabs, layer = {D.tuples(P.zero_state(n))}, {D.tuples(P.zero_state(n))}
    for _ in range(2):
        layer = {T.ref_tab(g, a, t) for t in layer for g, a in T.gates(n)} - tabs
        tabs |= layer
    for tab in sorted(tabs)[part::parts]:
        for k in range(1, n + 1):
            for args in permutations(range(n), k):
                for name in T.G1:
                    want = tab
                    for a in args:
                        want = T.ref_tab(name, (a,), want)
                    f = {"X": P.x, "Y": P.y, "Z": P.z, "H": P.hadamard, "S": P.phase_gate}[name]
                    for how, c in CONTAINERS.items():
                        case = (name, args, how, [D.show(r) for r in tab])
                        sh.count(transitions=1, traces_validated_against_impl=1)
                        sh.case((tab, name, args, how))
                        with sh.guard("containers", case):
                            got = D.tuples(f(T.arr(tab), c(args)))
                            sh.check(got == want, "containers", f"{name} on {args} given as {how}: {[D.show(r) for r in got]}, want {[D.show(r) for r in want]}", case)
                            if name in q and tab == D.tuples(P.zero_state(n)):
                                s = QuantumState(n)
                                s.hadamard(list(range(n)))
                                getattr(s, q[name])(c(args))
                                w = tab
                                for a in range(n):
                                    w = T.ref_tab("H", (a,), w)
                                for a in args:
                                    w = T.ref_tab(name, (a,), w)
                                sh.check(D.tuples(np.asarray(s.tableau)) == w, "containers:object", f"{name} on {args} given as {how}", case)
        for (a, b) in permutations(range(n), 2):
            for name in T.G2:
                f = {"CX": P.cx, "CZ": P.cz}[name]
                for how in ("tuple", "array", "range"):
                    c = CONTAINERS[how]
                    case = (name, (a, b), how, [D.show(r) for r in tab])
                    sh.count(transitions=1, traces_validated_against_impl=1)
                    with sh.guard("containers", case):
                        got = D.tuples(f(T.arr(tab), c((a, b)), c((b, a)))) if how != "range" else D.tuples(f(T.arr(tab), range(a, a + 1), range(b, b + 1)))
                        want = T.ref_tab(name, (a, b), tab)
                        if how != "range":
                            want = T.ref_tab(name, (b, a), want)
                        sh.check(got == want, "containers", f"{name} on {(a, b)} given as {how}", case)


def outside(sh, item):
    """Qubits that the state does not have, and pairs that do not pair up, are refused."""
    (n,) = item
    q = {"X": "x", "Y": "y", "Z": "z", "H": "hadamard", "CX": "cx", "CZ": "cz"}
    for far in (n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 5 * n):
        if far < n:
            continue
        calls = [(g, a) for g in T.G1 for a in ((far,), (0, far), (far, 0))]
        calls += [(g, a) for g in T.G2 for a in ((0, far), (far, 0), (far, far + 1), (0, n - 1, n - 1, far) if n > 1 else (far, 0))]
        for name, args in calls:
            for how in ("function", "object") if name in q else ("function",):
                sh.count(transitions=1, states=1)
                sh.case((n, name, args, how))
                try:
                    if how == "function":
                        T.impl_gate(name, args, P.zero_state(n))
                    else:
                        f = getattr(QuantumState(n), q[name])
                        f(list(args)) if name in T.G1 else f(list(args[::2]), list(args[1::2]))
                except Exception:  # noqa: BLE001
                    sh.count(refused=1)
                else:
                    sh.fail("outside", f"{name}{args} on {n} qubits was not refused ({how})", (n, name, args))
    for name in T.G2:
        for a, b in (([0], [0, 0]), ([0, 0], [0]), ([0], [])):
            f = {"CX": P.cx, "CZ": P.cz}[name]
            sh.count(transitions=1)
            sh.case((n, name, a, b))
            try:
                f(P.zero_state(n), a, b)
            except Exception:  # noqa: BLE001
                sh.count(refused=1)
            else:
                sh.fail("outside:pairs", f"{name} with controls {a} and targets {b} was not refused", (n, name))


def wide(sh, item):
    """Large registers: fixed histories, the whole tableau compared after every gate."""
    n, fam = item
    W.selftest()
    hist = W.family(n, fam)
    tail = [("H", tuple(range(n))), ("S", tuple(range(n - 1, -1, -1))), ("CX", tuple(range(n - n % 2))), ("CZ", tuple(q for p in zip(range(n // 2), range(n - 1, n // 2, -1)) for q in p)),
            ("Y", tuple(range(0, n, 2))), ("X", tuple(range(1, n, 3))), ("Z", tuple(range(n))), ("CX", tuple(q for p in range(1, n) for q in (0, p))), ("CZ", tuple(q for p in range(n - 1) for q in (n - 1, p)))]
    rows, got = W.zero(n), P.zero_state(n)
    for k, (name, args) in enumerate(hist + tail):
        case = (item, k, name, args[:6])
        rows = W.gates(name, args, rows)
        with sh.guard("wide", case):
            got = T.impl_gate(name, args, got)
            sh.count(transitions=1, traces_validated_against_impl=1)
            sh.case(case)
            if k % max(1, n // 16) and k < len(hist):
                continue
            g = W.rows_of(got)
            sh.count(states=1)
            bad = [i for i in range(2 * n) if g[i] != rows[i]] if len(g) == 2 * n else ["size"]
            if not sh.check(not bad, "wide", lambda: f"after gate {k} ({name}) of the history, rows {bad[:5]} are wrong", case):
                return


def finish(n, tier):
    return {"gate_alphabet": "X Y Z H S CX CZ"}
