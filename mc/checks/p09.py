"""P09: OpenQASM export means the same circuit."""
from itertools import product

from plaquette.circuit import Circuit
from plaquette.circuit.openqasm import GateNotSupportedError, convert_to_openqasm

from .. import refsim as R
from .. import wide as W
from . import p06

LEVEL = "model_checking"
RULE = ("state = circuit prefix; transition = one instruction; every instruction sequence up to the stated length is "
        "exported, read back with Qiskit's OpenQASM 2 parser and executed exhaustively over all outcomes; the joint "
        "distribution of the classical register and the final state are compared with the circuit's; non-trivial = "
        "at least two instructions")
ASSUMPTIONS = ["Qiskit's OpenQASM 2 importer is right about the language",
               "known finding: R is not exported (see KNOWN_FINDINGS.txt); circuits without R are judged strictly"]
CHUNK = 1

A = [("X", (0,)), ("X", (1, 0)), ("Y", (1,)), ("Z", (0,)), ("H", (0,)), ("H", (1, 0)), ("CX", (0, 1)), ("CX", (1, 0)),
     ("CX", (0, 1, 1, 0)), ("CZ", (0, 1)), ("CZ", (1, 0, 0, 1)), ("M", (0,)), ("M", (1,)), ("M", (1, 0)), ("M", (0, 1, 0)),
     ("R", (0,)), ("R", (1, 0))]
A3 = [("Y", (2, 0)), ("H", (2,)), ("H", (0, 1, 2)), ("CX", (0, 1, 1, 2)), ("CX", (2, 0)), ("CZ", (2, 0, 1, 2)), ("M", (2, 0)),
      ("M", (1,)), ("Z", (1, 2))]
BAD = [("DEPOLARIZE", (0,)), ("E_ERASE", (0.5, 1)), ("E_PAULI", (0.1, 0.2, 0.3, 0)), ("E_PAULI2", (*p06.P15, 0, 1)),
       ("ERROR", (0.5, "X", 0)), ("ERROR_CONTINUE", ("X", 1)), ("ERROR_ELSE", (0.5, "M", 0))]


def plan(tier):
    t = tier == "thorough"
    items = [("walk", (2, (i,), 1)) for i in range(len(A))]
    items += [("walk", (2, (i, j), k)) for k in (2, 3, 4) for i in range(len(A)) for j in range(len(A))
              if k < 4 or t or (i + 3 * j) % 3 == 0]
    items += [("walk", (2, (i, j), 5)) for i in range(len(A)) for j in range(len(A)) if t]
    items += [("walk", (3, (i, j), 5 if t else 4)) for i in range(len(A3)) for j in range(len(A3))]
    items += [("wide", (n, k)) for n in (3, 10, 11, 12, 23, 40) + ((101, 130) if t else ()) for k in range(8)]
    items += [("unsupported", i) for i in range(len(BAD))]
    return items


def execute(text):
    """{classical register: unnormalised rho} of an OpenQASM 2 program."""
    from qiskit import qasm2
    qc = qasm2.loads(text)
    n, nc = qc.num_qubits, qc.num_clbits
    br = {(0,) * nc: R.D.zero(n)}
    for ins in qc.data:
        name = ins.operation.name
        qs = [qc.find_bit(q).index for q in ins.qubits]
        cs = [qc.find_bit(c).index for c in ins.clbits]
        out = {}
        for creg, rho in br.items():
            if name in ("barrier", "id"):
                R._put(out, creg, rho)
            elif name == "measure":
                for v in (0, 1):
                    new = list(creg)
                    new[cs[0]] = v
                    R._put(out, tuple(new), R._u(rho, R.proj(qs[0], v, n)))
            else:
                b = R.gate({((), (), ()): rho}, {"reset": "R"}.get(name, name.upper()), qs, n)
                for r in b.values():
                    R._put(out, creg, r)
        br = out
    return br, n, nc


def build(seq):
    c = Circuit()
    for name, args in seq:
        c.append(name, *args)
    return c


def walk(sh, item):
    n, first, depth = item
    al = A if n == 2 else A3
    for rest in product(range(len(al)), repeat=depth - len(first)):
        one(sh, [al[i] for i in (*first, *rest)], None)
    if depth == 3 and first == (4, 6):
        sh.sample(convert_to_openqasm(build([al[i] for i in (*first, *rest)])))


def want_of(seq, nq):
    return {k[0]: r for k, r in R.run(seq, nq).items()}


def one(sh, seq, ignore):
    case = [f"{a} {' '.join(map(str, b))}" for a, b in seq]
    c = build(seq)
    real = [s for s in seq if s not in BAD]
    nq = c.number_of_qubits
    sh.count(states=1, transitions=len(seq), traces_validated_against_impl=1)
    sh.case((case, ignore), nontrivial=len(seq) > 1)
    with sh.guard("export", case):
        kw = {} if ignore is None else {"ignore_unsupported": ignore}
        text = convert_to_openqasm(c, **kw)
        sh.check(convert_to_openqasm(str(c), **kw) == text, "openqasm:string-input",
                 "exporting the circuit and exporting its text differ", case)
    if sh.viol and sh.viol[-1][0].startswith("export"):
        return
    try:
        got, n, nc = execute(text)
    except Exception as e:  # noqa: BLE001  Qiskit refuses the text, or a gate is unknown
        sh.fail("openqasm:invalid", f"{type(e).__name__}: {e}\n{text}", case)
        return
    want = want_of(real, nq)
    nm = len(next(iter(want), ()))
    sh.check(nc >= nm and n >= nq, "openqasm:registers", f"qreg {n}, creg {nc} for {nq} qubits, {nm} results", case)
    if n == nq and nc >= nm:
        pad = {k + (0,) * (nc - nm): r for k, r in want.items()}
        if not R.same(got, pad):
            nor = [s for s in real if s[0] != "R"]
            pad2 = {k + (0,) * (nc - nm): r for k, r in want_of(nor, nq).items()}
            key = "openqasm:reset-dropped" if len(nor) < len(real) and R.same(got, pad2) else "openqasm:meaning"
            sh.fail(key, f"the exported program behaves differently: {R.probs(got)}, want {R.probs(pad)}\n{text}", case)


def flows(ops, n, nc):
    """Everything a program does, for all outcomes at once: classical bit k is a qubit n + k
    that starts in |0>, gets a copy at each measurement, and is read at the end."""
    import stim
    c = stim.Circuit()
    c.append("R", range(n, n + nc))
    for name, qs, cl in ops:
        if name == "M":
            for q, k in zip(qs, cl):
                c.append("R", [n + k])
                c.append("CX", [q, n + k])
        else:
            c.append(name, qs)
    c.append("M", range(n, n + nc))
    c.append("R", range(n, n + nc))
    return c


def wide(sh, item):
    """Many qubits: the exported program and the circuit are compared as maps from Pauli
    operators to Pauli operators and results (their stabiliser flows)."""
    from qiskit import qasm2
    n, k = item
    seq = [(g, a) for g, a in W.scramble(n, 3 * n + 20, k) if g != "S"]
    many = tuple((5 * q + k) % n for q in range(n))
    extra = [("M", (n - 1,)), ("H", many), ("M", many[::2]), ("CX", (n - 1, 0, 1, n - 1)), ("M", (0, n - 1, 0)), ("CZ", (0, n - 1)), ("M", many)]
    if n == 3:  # long lists of qubits in one instruction
        extra += [("M", (0, 1, 2) * 7 * k + (1,)), ("CX", (0, 1, 1, 2, 2, 0) * 6 * k + (2, 1)), ("CZ", (0, 1, 2, 1) * 9 * k + (0, 2)), ("H", (0, 2, 2) * 11 * k + (1,)), ("M", (2, 0))]
    for i, e in enumerate(extra):
        if (k >> (i % 3)) & 1 or i == k - 1:
            seq.insert((i + 1) * len(seq) // (len(extra) + 1), e)
    case = (item, [f"{g} {' '.join(map(str, a))}" for g, a in seq[:8]])
    c = build(seq)
    ops, nm = [], 0
    for g, a in seq:
        ops.append((g, a, range(nm, nm + len(a))) if g == "M" else (g, a, ()))
        nm += len(a) * (g == "M")
    sh.count(states=1, transitions=len(seq), traces_validated_against_impl=1)
    sh.case(case)
    with sh.guard("wide", case):
        text = convert_to_openqasm(c)
    try:
        qc = qasm2.loads(text)
    except Exception as e:  # noqa: BLE001
        sh.fail("openqasm:invalid", f"{type(e).__name__}: {e}\n{text[:400]}", case)
        return
    got = []
    for ins in qc.data:
        name = ins.operation.name
        if name not in ("barrier", "id"):
            got.append(({"measure": "M", "reset": "R"}.get(name, name.upper()), [qc.find_bit(q).index for q in ins.qubits],
                        [qc.find_bit(q).index for q in ins.clbits]))
    nq = c.number_of_qubits
    if sh.check(qc.num_qubits >= nq and qc.num_clbits >= nm, "openqasm:registers", f"{qc.num_qubits} {qc.num_clbits}", case):
        m, b = qc.num_qubits, qc.num_clbits
        a, b = flows(got, m, b), flows(ops, m, b)
        sh.check(a == b or (a.has_all_flows(b.flow_generators()) and b.has_all_flows(a.flow_generators())),
                 "openqasm:meaning", f"the exported program behaves differently\n{text[:1500]}", case)


def unsupported(sh, i):
    bad = BAD[i]
    for before, mid, after in product([[], [A[4]], [A[13], A[6]]], [[], [A[11]]], [[], [A[14]], [BAD[0], A[9]]]):
        seq = before + [bad] + mid + after
        c = build(seq)
        sh.count(states=1, transitions=1)
        for kw in ({}, {"ignore_unsupported": False}):
            sh.case((str(c), str(kw)))
            try:
                text = convert_to_openqasm(c, **kw)
                sh.fail("openqasm:unsupported-accepted", f"{bad[0]} exported as {text}", str(c))
            except GateNotSupportedError:
                pass
        one(sh, seq, True)
    for wrong in (None, 3, [("X", (0,))]):
        try:
            convert_to_openqasm(wrong)
            sh.fail("openqasm:type", f"{wrong!r} accepted", wrong)
        except TypeError:
            pass
