"""P06: the Clifford device executes every circuit with the documented semantics."""
from itertools import product

import numpy as np

from plaquette.circuit import Circuit, CircuitBuilder
from plaquette.device import Device
from plaquette.device._circuitsim import CircuitSimulator

from .. import dense as D
from .. import refsim as R
from .. import tab as T
from .. import wide as W
from ..choice import distribution, explore, same_distribution

LEVEL = "model_checking"
RULE = ("state = (circuit prefix, measurement and erasure record, quantum state); transition = one executed "
        "instruction under one resolution of the random choices; all instruction sequences up to the stated "
        "length after each preparation; non-trivial = the circuit draws at least one random number")
ASSUMPTIONS = ["reference: docs/ref/circuits.rst on dense density matrices",
               "random choices nobody can observe are compared as channels (averaged final state)"]
CHUNK = 1

P15 = tuple(round(0.004 * (i + 1), 6) for i in range(15))
A2 = [
    ("X", (0,)), ("Y", (1,)), ("Y", (1, 0)), ("Z", (0,)), ("H", (0,)), ("H", (1, 0)), ("CX", (0, 1)), ("CX", (1, 0)),
    ("CX", (0, 1, 1, 0)), ("CZ", (0, 1)), ("M", (0,)), ("M", (1,)), ("M", (1, 0)), ("R", (0,)), ("R", (0, 1)),
    ("DEPOLARIZE", (1,)), ("E_ERASE", (0.25, 0)), ("E_ERASE", (1.0, 1)), ("E_PAULI", (0.1, 0.2, 0.4, 0)),
    ("E_PAULI", (0.0, 1.0, 0.0, 1)), ("ERROR", (0.3, "X", 0)), ("ERROR", (1.0, "H", 1)), ("ERROR", (0.0, "X", 1)),
    ("ERROR_CONTINUE", ("Z", 1)), ("ERROR_CONTINUE", ("X", 0, 1)), ("ERROR_ELSE", (0.6, "Y", 1)),
    ("ERROR_ELSE", (1.0, "CX", 0, 1)),
]
HEAVY2 = [("E_PAULI2", (*P15, 0, 1)), ("E_PAULI2", (*P15, 1, 0)), ("DEPOLARIZE", (0, 1)), ("E_ERASE", (0.5, 1)),
          ("ERROR", (0.5, "DEPOLARIZE", 0)), ("ERROR_ELSE", (0.25, "R", 0)), ("ERROR_CONTINUE", ("M", 1))]
PREP2 = [(), (("H", (0,)), ("CX", (0, 1))), (("H", (0, 1)),), (("H", (0,)), ("X", (1,)))]
A3 = [("X", (2, 0)), ("Z", (1,)), ("H", (2,)), ("H", (0, 1)), ("CX", (0, 1, 1, 2)), ("CX", (2, 0)), ("CZ", (0, 2, 2, 1)),
      ("M", (2,)), ("M", (2, 0)), ("R", (1,)), ("R", (2, 0)), ("E_ERASE", (0.5, 2)), ("E_PAULI", (0.1, 0.3, 0.2, 1)),
      ("ERROR", (0.3, "Y", 2)), ("ERROR_CONTINUE", ("CZ", 1, 2)), ("ERROR_ELSE", (0.5, "H", 0))]
# The same qubit more than once in one instruction
AGAIN = [("X", (0, 0)), ("Z", (1, 0, 1)), ("H", (0, 1, 0)), ("M", (0, 0)), ("M", (1, 0, 1)), ("M", (0, 1, 1, 1)), ("R", (0, 0)), ("R", (1, 0, 1)), ("CX", (0, 1, 0, 1)), ("CX", (0, 1, 0, 1, 0, 1)),
         ("CZ", (0, 1, 1, 0)), ("DEPOLARIZE", (1, 1)), ("H", (0,)), ("CX", (0, 1)), ("E_ERASE", (0.25, 1)), ("ERROR", (0.3, "X", 0))]
AGAIN_ERR = [("ERROR", (0.3, "X", 0, 0)), ("ERROR", (0.5, "M", 0, 0)), ("ERROR_CONTINUE", ("H", 0, 1, 0)), ("ERROR_ELSE", (0.5, "CX", 0, 1, 0, 1))]
PREP3 = [(), (("H", (0,)), ("CX", (0, 1, 1, 2))), (("H", (0, 1, 2)), ("CZ", (0, 1, 1, 2)))]
BLOCK = [("ERROR", (0.3, "X", 0)), ("ERROR_CONTINUE", ("X", 1)), ("ERROR_ELSE", (0.4, "X", 2)),
         ("ERROR_ELSE", (0.0, "X", 0)), ("Z", (0,))]


def plan(tier):
    t = tier == "thorough"
    items = [("walk", (2, p, (), 1, "")) for p in range(len(PREP2))]
    items += [("walk", (2, p, (i,), 2, "h")) for p in range(len(PREP2)) for i in range(len(A2) + len(HEAVY2))]
    items += [("walk", (2, p, (i, j), 4 if t and p == 1 else 3, "")) for p in range(len(PREP2))
              for i in range(len(A2)) for j in range(len(A2))]
    items += [("walk", (3, p, (i,), 3 if t else 2, "")) for p in range(len(PREP3)) for i in range(len(A3))]
    items += [("blocks", (i, j, 6 if t else 5)) for i in range(len(BLOCK)) for j in range(len(BLOCK))]
    items += [("walk", (2, p, (i,), 2, "r")) for p in range(len(PREP2)) for i in range(len(AGAIN) + len(AGAIN_ERR))]
    items += [("edge", k) for k in range(len(EDGES))]
    items += [("deep", (i, t)) for i in range(len(DEEP))]
    items += [("wide", (n, f)) for n in (9, 33, 66, 104, 131) + ((260,) if t else ()) for f in W.CIRCUIT_FAMILIES]
    return items


def alphabet(n, flag):
    if flag == "r":
        return AGAIN + AGAIN_ERR
    return {2: A2 + (HEAVY2 if flag == "h" else []), 3: A3}[n]


def walk(sh, item):
    n, prep, first, depth, flag = item
    al = alphabet(n, flag)
    pre = (PREP2 if n == 2 else PREP3)[prep]
    b = R.start(n)
    seq = list(pre)
    try:
        for name, args in seq + [al[i] for i in first]:
            b = R.step(b, name, args, n)
    except R.Invalid:
        return
    seq += [al[i] for i in first]
    sh.sample("\n".join(f"{a} {b}" for a, b in seq)) if depth == 3 and first == (4, 12) else None
    rec(sh, seq, b, depth - len(first), al, n, heavy=sum(al[i] in HEAVY2 for i in first))


def rec(sh, seq, b, left, al, n, heavy=0):
    if left == 0:
        one(sh, seq, n, R.finish(b))
        return
    for ins in al:
        h = heavy + (ins in HEAVY2)
        if h > 1:
            continue
        try:
            nb = R.step(b, *ins, n)
        except R.Invalid:
            one(sh, [*seq, ins], n, None)
            continue
        rec(sh, [*seq, ins], nb, left - 1, al, n, h)


def build(seq, form):
    c = Circuit()
    for name, args in seq:
        c.append(name, *args)
    return CircuitBuilder(c) if form else c


def one(sh, seq, n, want):
    case = [f"{a} {' '.join(map(str, b))}" for a, b in seq]
    nq = max([0] + [a for s in seq for a in s[1] if isinstance(a, int)]) + 1
    if nq < n:  # the register is only as large as the circuit needs
        seq, n0 = list(seq), n
        if want is not None:
            want = {k: trace_last(r, n0, nq) for k, r in want.items()}
    sh.count(states=1)
    with sh.guard("run", case):
        if want is None:
            try:
                for _ in explore(lambda: CircuitSimulator(build(seq, 0)).run()):
                    pass
            except ValueError:
                sh.case(case)
                return
            sh.fail("stray-error", "ERROR_CONTINUE/ERROR_ELSE without an error before it was executed", case)
            return
        mode = hash(str(case)) % 3  # PYTHONHASHSEED is fixed

        def run():
            if mode == 0:
                dev = Device("clifford")
                dev.run(build(seq, 0))
                m, e = dev.get_sample()
                t = dev.state.tableau
            else:
                sim = CircuitSimulator(build(seq, mode == 1))
                if mode == 1:
                    m, e = sim.get_sample()
                else:
                    for _ in sim:
                        pass
                    m, e = sim.process_results()
                t = sim.state.tableau
            return m, e, D.tuples(t)

        got, k = {}, 0
        for p, (m, e, t) in explore(run):
            k += 1
            if k == 1:
                types(sh, m, e, want, case)
            nn = len(t) // 2
            rho = D.rho_of_rows(t[nn:])
            if rho is None or nn != nq:
                sh.fail("final-state", f"not a valid state of {nq} qubits: {t}", case)
                return
            key = (tuple(int(x) for x in m), tuple(bool(x) for x in e) if e is not None else ())
            got[key] = got.get(key, 0) + p * rho
        sh.count(transitions=k * len(seq), traces_validated_against_impl=k)
        sh.case(case, nontrivial=k > 1)
        sh.check(R.same(got, want), "execution:" + kind(seq),
                 lambda: f"(measurements, erasures) -> probability {R.probs(got)}, want {R.probs(want)}"
                         + ("" if R.probs(got) != R.probs(want) else "; the quantum states differ"), case)


def kind(seq):
    return seq[-1][0] if seq else "-"


def types(sh, m, e, want, case):
    ok = isinstance(m, np.ndarray) and m.ndim == 1
    has = any(k[1] for k in want)
    sh.check(ok and ((e is None) if not has else (isinstance(e, np.ndarray) and e.dtype == bool and e.ndim == 1)),
             "result-types", f"measurements {m!r}, erasures {e!r}", case)


def trace_last(rho, n, k):
    a = rho.reshape(2**k, 2 ** (n - k), 2**k, 2 ** (n - k))
    return np.einsum("abcb->ac", a)


def blocks(sh, item):
    """All sequences of error instructions up to length 6, observed by measuring."""
    i, j, depth = item
    n = 3
    for k in range(2, depth + 1):
        for rest in product(range(len(BLOCK)), repeat=k - 2):
            seq = [BLOCK[x] for x in (i, j, *rest)] + [("M", (0, 1, 2))]
            try:
                want = R.run(seq, n)
            except R.Invalid:
                want = None
            one(sh, seq, n, want)


EDGES = [
    [("E_PAULI", p + (0,)), ("M", (0,))]
    for p in [(0.7, 0.2, 0.1), (0.1, 0.2, 0.7), (0.3, 0.3, 0.4), (0.4, 0.3, 0.3), (0.6, 0.3, 0.1), (1 / 3, 1 / 3, 1 / 3),
              (0.1, 0.6, 0.3), (0.15, 0.35, 0.5), (0.8, 0.1, 0.1), (0.0, 0.0, 1.0), (0.0, 0.0, 0.0), (1.0, 0.0, 0.0)]
] + [[("H", (0,)), ("E_PAULI2", p + (0, 1)), ("M", (0, 1))]
     for p in [(1 / 15,) * 15, (0.05,) * 10 + (0.1,) * 5, (0.1,) * 5 + (0.05,) * 10, (0.0,) * 14 + (1.0,),
               (0.0,) * 15, (1.0,) + (0.0,) * 14]] + [
    [("E_ERASE", (0.0, 0)), ("E_ERASE", (1.0, 1)), ("M", (0, 1))],
    [("ERROR", (0.0, "X", 0)), ("ERROR_ELSE", (1.0, "X", 1)), ("M", (0, 1))],
    [("X", (3,)), ("M", (3, 1))], [("M", (0, 0, 0))], [("H", (0,)), ("M", (0, 0)), ("M", (0,))],
    [("R", (1,))], [("H", (0,)), ("R", (0, 0)), ("M", (0,))], [],
]


def edge(sh, k):
    seq = EDGES[k]
    n = max([0] + [a for s in seq for a in s[1] if isinstance(a, int)]) + 1
    one(sh, seq, n, R.run(seq, n))
    # every two-qubit Pauli separately
    if k == 0:
        for i in range(15):
            for qs in ((0, 1), (1, 0), (2, 0)):
                n = max(qs) + 1
                p = tuple(0.5 if x == i else 0.0 for x in range(15))
                for prep in ((), (("H", (0,)),), (("H", qs), ("CZ", qs))):
                    seq = [*prep, ("E_PAULI2", p + qs)]
                    one(sh, seq, n, R.run(seq, n))


# Longer structured circuits: stabiliser measurement with an ancilla, repeated rounds.
def syndrome_round(data, anc, basis):
    return [("R", (anc,)), ("H", (anc,)), *[("CZ" if basis == "Z" else "CX", (anc, d)) for d in data],
            ("H", (anc,)), ("M", (anc,))]


DEEP = [
    syndrome_round((0, 1), 2, "Z") * 2,
    [("H", (0, 1))] + syndrome_round((0, 1), 2, "Z") + [("E_PAULI", (0.1, 0.1, 0.1, 0))] + syndrome_round((0, 1), 2, "Z"),
    syndrome_round((0, 1), 2, "X") + syndrome_round((0, 1), 2, "Z") + [("E_ERASE", (0.5, 1))]
    + syndrome_round((0, 1), 2, "X") + syndrome_round((0, 1), 2, "Z"),
    [("E_ERASE", (0.25, 0)), ("E_ERASE", (0.5, 1)), ("M", (0, 1)), ("E_ERASE", (0.75, 0)), ("M", (0,))],
    [("ERROR", (0.5, "X", 0)), ("ERROR_CONTINUE", ("X", 1)), ("ERROR_ELSE", (0.5, "X", 2)), ("ERROR_CONTINUE", ("H", 0)),
     ("M", (0, 1, 2)), ("ERROR", (0.25, "X", 1)), ("ERROR_ELSE", (0.5, "X", 2)), ("M", (1, 2))],
    [("H", (0,)), ("CX", (0, 1, 1, 2, 2, 3)), ("M", (3, 0)), ("R", (3, 1)), ("H", (1,)), ("CZ", (1, 3, 3, 2)), ("M", (1, 2))],
]


def deep(sh, item):
    i, t = item
    seq = DEEP[i]
    n = max([0] + [a for s in seq for a in s[1] if isinstance(a, int)]) + 1
    for cut in range(1, len(seq) + 1):
        m = seq[:cut]
        one(sh, m, n, R.run(m, n))
        if n <= 3:
            for ins in (A3 if t else A3[cut % 3:: 3]):
                try:
                    w = R.run([*m, ins], 3)
                except R.Invalid:
                    continue
                one(sh, [*m, ins], 3, w)


def wide(sh, item):
    """Large registers: every resolution of the random choices of circuits with few of them."""
    n, fam = item
    W.selftest()
    for i, seq in enumerate(W.circuits(n, fam)):
        case = (item, i)
        want = W.records(seq, n)
        state = next(iter(want))[2] is not None
        c = build(seq, 0)
        with sh.guard("wide", case):
            def run():
                sim = CircuitSimulator(c)
                sim.run()
                m, e = sim.process_results()
                rows = W.rows_of(sim.state.tableau)
                return (tuple(int(v) for v in m), tuple(bool(v) for v in e) if e is not None else (),
                        tuple(W.echelon(rows[len(rows) // 2:])) if state else None)
            got, k = distribution(run)
            sh.count(states=1, transitions=k * len(seq), traces_validated_against_impl=k)
            sh.case(case, nontrivial=k > 1)
            sh.check(c.number_of_qubits == n and same_distribution(got, want), "wide:execution",
                     lambda: "records and states differ from the documented semantics: " + differ(got, want), case)


def differ(got, want):
    a = {k[:2]: 0 for k in (*got, *want)}
    for k in a:
        a[k] = tuple(round(sum(p for q, p in d.items() if q[:2] == k), 6) for d in (got, want))
    bad = {k: v for k, v in a.items() if v[0] != v[1]}
    return f"record -> probability, wanted one: {dict(list(bad.items())[:4])}" if bad else "same records, other states"
