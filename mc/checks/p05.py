"""P05: circuit text, builder and append agree; counts are right; malformed input is refused."""
from itertools import product

import numpy as np

from plaquette.circuit import Circuit, CircuitBuilder

from ..core import Violation

LEVEL = "model_checking"
RULE = ("state = circuit (instruction list); transition = adding one instruction by text, by append or "
        "by builder; all instruction sequences up to the stated length over an alphabet covering every "
        "instruction, every way of splitting them over the three interfaces; non-trivial = at least one instruction")
ASSUMPTIONS = ["reference: instruction lists written out by hand with the alphabet below"]

P15 = tuple(round(0.001 * (i + 1), 3) for i in range(15))
# (name, arguments as given in Python)
BASE = [
    ("X", (0,)), ("X", (2, 0, 11)), ("Y", (1,)), ("Y", (3, 12)), ("Z", (2,)), ("Z", (0, 1)), ("H", (0,)),
    ("H", (4, 1, 0)), ("CX", (0, 1)), ("CX", (2, 0, 11, 3)), ("CZ", (1, 0)), ("CZ", (0, 1, 1, 2)),
    ("M", (0,)), ("M", (1, 0, 1)), ("R", (0,)), ("R", (5, 2)), ("DEPOLARIZE", (0,)), ("DEPOLARIZE", (1, 7)),
    ("E_ERASE", (0.25, 3)), ("E_ERASE", (0.0, 0)), ("E_ERASE", (1.0, 9)),
    ("E_PAULI", (0.1, 0.2, 0.3, 7)), ("E_PAULI", (0.0, 1.0, 0.0, 0)), ("E_PAULI", (1e-05, 1 / 3, 1e-17, 2)),
    ("E_PAULI2", (*P15, 7, 8)), ("E_PAULI2", (*((0.0,) * 14), 1.0, 1, 0)),
    ("ERROR", (0.01, "X", 1)), ("ERROR", (1.0, "CX", 4, 0)), ("ERROR", (0.0, "DEPOLARIZE", 0, 1)),
    ("ERROR_CONTINUE", ("Z", 22)), ("ERROR_CONTINUE", ("H", 0, 1)),
    ("ERROR_ELSE", (0.5, "Y", 2)), ("ERROR_ELSE", (2 / 3, "CZ", 0, 13)),
]
BUILDER = {"X": "X", "Y": "Y", "Z": "Z", "H": "H", "M": "M", "R": "R", "CX": "CX", "CZ": "CZ",
           "DEPOLARIZE": "depolarize", "E_ERASE": "e_erase", "E_PAULI": "e_pauli", "E_PAULI2": "e_pauli2",
           "ERROR": "error", "ERROR_CONTINUE": "error_continue", "ERROR_ELSE": "error_else"}
BAD = [
    "S 0", "x 0", "Q", "CNOT 0 1", "T 1", "X a", "X 0.5", "X 1 b", "M 1.0", "CX 0 one", "R q0", "DEPOLARIZE 0.1 1",
    "ERROR 1.5 X 0", "ERROR 1.0000000000000002 X 0", "ERROR -5e-324 X 0", "ERROR inf X 0", "ERROR_ELSE 1.000001 X 0", "ERROR_ELSE nan X 0", "ERROR -0.1 X 0", "ERROR nan X 0", "ERROR X 0", "ERROR 0.1 S 0", "ERROR 0.1 x 0",
    "ERROR_ELSE 1.01 X 0", "ERROR_ELSE -1 X 0", "ERROR_ELSE X 0", "ERROR_ELSE 0.1 FOO 0",
    "ERROR_CONTINUE FOO 0", "ERROR_CONTINUE 0.1 X 0", "ERROR 0.1 X q", "ERROR", "ERROR 0.1",
    "E_ERASE 0.1", "E_ERASE 0.1 1 2", "E_ERASE a 1", "E_ERASE 0.1 b", "E_PAULI 0.1 0.1 0.1",
    "E_PAULI 0.1 0.1 0.1 0 1", "E_PAULI a 0.1 0.1 0", "E_PAULI2 0.1 0.1 0.1 0 1",
    "E_PAULI2 " + " ".join(["0.01"] * 15) + " 0", "E_PAULI2 " + " ".join(["0.01"] * 15) + " 0 1 2",
]


def qubits(name, args):
    return [a for a in args if isinstance(a, int) and not isinstance(a, bool)]


def text(ins):
    return " ".join([ins[0], *map(repr_arg, ins[1])])


def repr_arg(a):
    return repr(a) if isinstance(a, float) else str(a)


def layouts(seq):
    """Several spellings of the same program."""
    lines = [text(i) for i in seq]
    yield "\n".join(lines)
    yield "\n\n" + "\n \n".join(lines) + "\n"
    yield "\n".join("  " + ln.replace(" ", " \t ") + "   # note: X 0 # and ## Z 1" for ln in lines)
    yield "# header Z 1\n" + "\n#M 0\n".join(lines) + "\n#end"
    yield "\r\n".join(lines)


def plan(tier):
    items = [("seqs", (k, i)) for k in range(0, 4) for i in range(-1 if k == 0 else 0, len(BASE)) if k or i < 0]
    items += [("values", (i,)) for i in range(len(BASE))]
    items += [("long", (k,)) for k in (9, 11, 64, 101, 257, 1000)]
    if tier == "thorough":
        items += [("seqs", (4, i, j)) for i in range(len(BASE)) for j in range(len(BASE))]
    items += [("bad", i) for i in range(len(BAD))]
    items += [("misc", 0)]
    return items


def expect(sh, circ, seq, how):
    got = [(str(g[0]), tuple(g[1])) for g in circ.gates]
    sh.check(got == list(seq) and all(
        type(a) is type(b) or (isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)))
        or (isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)))
        for g, s in zip(got, seq) for a, b in zip(g[1], s[1])),
        f"instructions:{how}", lambda: f"got {got}, want {list(seq)}", seq)
    nq = max([0] + [q for s in seq for q in qubits(*s)]) + 1
    sh.check(circ.number_of_qubits == nq and circ.n_q == nq, f"number_of_qubits:{how}",
             lambda: f"number_of_qubits={circ.number_of_qubits}, want {nq}", seq)
    nm = sum(len(s[1]) for s in seq if s[0] == "M")
    sh.check(circ.number_measured_qubits == nm, f"number_measured:{how}",
             lambda: f"number_measured_qubits={circ.number_measured_qubits}, want {nm}", seq)


def add(circ, ins, how):
    name, args = ins
    if how == "text":
        circ.append_from_str(text(ins))
    elif how == "append":
        circ.append(name, *args)
    elif how == "strings":
        circ.append(name, *map(repr_arg, args))
    elif how == "numpy":
        circ.append(name, *(np.int64(a) if isinstance(a, int) else np.float64(a) if isinstance(a, float) else a
                            for a in args))
    else:
        getattr(CircuitBuilder(circ), BUILDER[name])(*args)


def seqs(sh, item):
    k, *first = item
    if k == 0:
        with sh.guard("empty"):
            sh.check(list(Circuit().gates) == [] and Circuit().number_measured_qubits == 0, "empty", "new circuit not empty")
            sh.case("empty", nontrivial=False)
            sh.check(str(Circuit.from_str("")) == "" and Circuit.from_str("\n# c\n").gates == [], "empty", "blank text")
            sh.count(states=1)
        return
    hows = ("text", "append", "strings", "numpy", "builder")
    for rest in product(range(len(BASE)), repeat=k - len(first)):
        rest = (*first[1:], *rest)
        seq = tuple(BASE[i] for i in (first[0], *rest))
        light = k == 4
        sh.count(states=1)
        sh.case(seq)
        with sh.guard("build", seq):
            for n, lay in enumerate(layouts(seq)):
                if light and n != sum(rest) % 5:
                    continue
                c = Circuit.from_str(lay)
                expect(sh, c, seq, f"layout{n}")
                sh.count(transitions=k, traces_validated_against_impl=1)
                again = Circuit.from_str(str(c))
                sh.check(again.gates == c.gates and str(again) == str(c), "roundtrip",
                         lambda: f"printed {str(c)!r} parses to {again.gates}", seq)
            ways = product(hows, repeat=k) if k < 3 else [(h,) * k for h in hows] + [
                ("builder", "text", "append", "text")[:k], ("append", "builder", "text", "append")[:k], ("text", "strings", "builder", "builder")[:k]]
            for n, way in enumerate(ways):
                if light and n % 4 != sum(rest) % 4:
                    continue
                c = Circuit()
                for pos, (ins, how) in enumerate(zip(seq, way)):
                    add(c, ins, how)
                    if not light:
                        expect(sh, c, seq[:pos + 1], how)
                if light:
                    expect(sh, c, seq, "mixed")
                sh.count(transitions=k, traces_validated_against_impl=1)
            # whole tail at once
            c = Circuit.from_str(text(seq[0]))
            c.append_from_str("\n".join(text(i) for i in seq[1:]))
            expect(sh, c, seq, "tail")
        if k == 2 and rest[0] == first[0]:
            sh.sample(str(Circuit.from_str("\n".join(map(text, seq)))))


NUMBERS = (0.0, 1.0, 0.1, 0.1 + 0.2, 1 / 3, 1e-05, 1e-17, 1e-300, 5e-324, 1 - 2**-53, 0.5, 2**-40, 0.30000000000000001, 0.123456789012345678)
INDICES = (0, 1, 9, 10, 11, 99, 100, 101, 255, 256, 1000, 4096, 65536)


def values(sh, item):
    """Every probability and every index, in every position of every instruction."""
    name, args = BASE[item[0]]
    for at, old in enumerate(args):
        if isinstance(old, str):
            continue
        for new in NUMBERS if isinstance(old, float) else INDICES:
            if isinstance(old, int) and name[0] in "CE" and new in args[:at] + args[at + 1:]:
                continue
            ins = (name, args[:at] + (new,) + args[at + 1:])
            if name == "E_PAULI" and sum(ins[1][:3]) > 1 or name == "E_PAULI2" and sum(ins[1][:15]) > 1:
                ins = (name, tuple(new if q == at else 0.0 if isinstance(a, float) else a for q, a in enumerate(args)))
            sh.case(ins)
            for how in ("text", "append", "strings", "numpy", "builder"):
                sh.count(states=1, transitions=1, traces_validated_against_impl=1)
                with sh.guard("values", (ins, how)):
                    c = Circuit()
                    add(c, ins, how)
                    expect(sh, c, (ins,), how)
                    again = Circuit.from_str(str(c))
                    expect(sh, again, (ins,), how + ":printed")
            # neighbours must keep their own values
            seq = (BASE[13], ins, BASE[1], ins, BASE[30])
            with sh.guard("values", seq):
                c = Circuit.from_str("\n".join(map(text, seq)))
                expect(sh, c, seq, "among")
                expect(sh, Circuit.from_str(str(c)), seq, "among:printed")
                sh.count(states=1, transitions=5, traces_validated_against_impl=5)


def long(sh, item):
    """Instructions with many targets and programs with many lines."""
    (k,) = item
    one = tuple((7 * q + 3) % k for q in range(k))
    pairs = tuple(v for q in range(k) for v in (q, q + 1))
    seq = [(g, one) for g in ("X", "Y", "Z", "H", "R", "M", "DEPOLARIZE")] + [("M", one + one[::-1])] + [(g, pairs) for g in ("CX", "CZ")]
    seq += [("ERROR", (0.125, "X", *one)), ("ERROR_CONTINUE", ("CZ", *pairs)), ("ERROR_ELSE", (0.25, "DEPOLARIZE", *one))]
    seq += [BASE[i % len(BASE)] for i in range(k)]
    for how in ("text", "append", "strings", "numpy", "builder"):
        sh.case((k, how))
        sh.count(states=1, transitions=len(seq), traces_validated_against_impl=len(seq))
        with sh.guard("long", (k, how)):
            c = Circuit()
            for ins in seq:
                add(c, ins, how)
            expect(sh, c, seq, how)
            expect(sh, Circuit.from_str(str(c)), seq, how + ":printed")
    for n, lay in enumerate(layouts(seq)):
        with sh.guard("long", (k, n)):
            expect(sh, Circuit.from_str(lay), seq, f"long:layout{n}")


def bad(sh, i):
    line = BAD[i]
    for before, after in product([(), (BASE[0],), (BASE[26], BASE[29])], [(), (BASE[13],)]):
        seq = (*before, line, *after)
        sh.count(states=1, transitions=1, traces_validated_against_impl=1)
        sh.case(seq)
        txt = "\n".join(x if isinstance(x, str) else text(x) for x in seq)
        try:
            c = Circuit.from_str(txt)
            sh.fail("accepts-malformed", f"{line!r} accepted as {c.gates}", txt)
        except Violation:
            raise
        except Exception:  # noqa: BLE001  any refusal will do
            pass
        c = Circuit.from_str("\n".join(map(text, before)))
        g = list(c.gates)
        try:
            c.append(*line.split())
            sh.fail("accepts-malformed", f"append {line!r} accepted as {c.gates}", txt)
        except Exception:  # noqa: BLE001
            sh.check(c.gates == g, "refused-but-changed", f"refused {line!r} but the circuit changed to {c.gates}", txt)


def misc(sh, item):
    """Circuits are independent objects."""
    with sh.guard("independence"):
        a, b = Circuit.from_str("X 0"), Circuit.from_str("Z 1")
        c = Circuit()
        a.append("M", 0)
        CircuitBuilder(b).H(5)
        expect(sh, a, [("X", (0,)), ("M", (0,))], "independent")
        expect(sh, b, [("Z", (1,)), ("H", (5,))], "independent")
        expect(sh, c, [], "independent")
        x, y = CircuitBuilder(a), CircuitBuilder(a)
        x.CZ(1, 2)
        y.CX(2, 1)
        expect(sh, a, [("X", (0,)), ("M", (0,)), ("CZ", (1, 2)), ("CX", (2, 1))], "shared builder")
        sh.check(x.circ is a and y.circ is a, "builder-identity", "builder does not wrap the given circuit")
        sh.case("independence")
