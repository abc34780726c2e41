"""P23: drawings show exactly the code, the data and the circuit they were given."""
import importlib
import re
from collections import Counter
from contextlib import contextmanager
from itertools import combinations, product

import matplotlib.pyplot as plt
import numpy as np
from plaquette import codes, pauli
from plaquette.circuit import Circuit
from plaquette.circuit.openqasm import GateNotSupportedError
from plaquette.codes import latticebase as L
from plaquette.visualizer import CircuitVisualizer, LatticeVisualizer

from .. import codes as C
from ..core import Violation
from . import p09

LEVEL = "model_checking"
RULE = ("state = (code, syndrome, error, correction, options, what this visualizer drew before); transition = one drawing; all syndromes, all errors, all options "
        "and all histories of drawings up to the stated length are drawn, the marks and lines of every figure are read back and compared with the lattice and the arguments; "
        "circuits: every instruction sequence up to the stated length, compared with what Qiskit is asked to draw; non-trivial = distinct drawing")
ASSUMPTIONS = ["a figure is what its traces (Plotly), lines (Matplotlib) or QuantumCircuit (Qiskit) say; how these libraries render them is not looked at",
               "which of the markers other than those of stabilisers 'draw_stabs=False' keeps is not specified for logical operators"]
CHUNK = 1
GROUPS = {"A": "A stabilizer", "B": "B stabilizer", "U": "Stabilizer"}
FACTOR = {"Pauli X": "X", "Pauli Y": "Y", "Pauli Z": "Z"}
FRAME = {"X error": ("error", "X"), "Z error": ("error", "Z"), "X correction": ("correction", "X"), "Z correction": ("correction", "Z")}


# ------------------------------------------------------------------------- reading
def segments(xs, ys):
    """The straight lines of a polyline with gaps, as a multiset of pairs of points."""
    out, prev = Counter(), None
    for x, y in zip(xs, ys):
        if x is None or y is None or np.isnan(x) or np.isnan(y):
            prev = None
            continue
        p = (float(x), float(y))
        if prev is not None:
            out[frozenset((prev, p))] += 1
        prev = p
    return out


def grey(c):
    return isinstance(c, str) and ("grey" in c or "gray" in c)


def read(fig):
    """Marks {(what, position, texts)}, lines {(factor, ends)}, and the colour of each."""
    marks, lines, colour = Counter(), Counter(), {}
    for tr in fig.data:
        if tr.mode == "lines":
            f = FACTOR[tr.name]
            for s, k in segments(tr.x, tr.y).items():
                lines[f, s] += k
            if len(tr.x):
                colour[tr.name] = tr.line.color
            continue
        if tr.mode != "markers":
            raise ValueError(f"{tr.name} drawn as {tr.mode}")
        hov = tr.hovertext
        cols = tr.marker.color
        many = not (cols is None or isinstance(cols, str))
        xs, ys = list(tr.x), list(tr.y)
        if not len(xs) == len(ys) == len(hov) or many and len(cols) != len(xs):
            raise ValueError(f"{tr.name}: {len(xs)} x, {len(ys)} y, {len(hov)} texts, {len(cols) if many else 1} colours")
        for i, (x, y, h) in enumerate(zip(xs, ys, hov)):
            marks[tr.name, (float(x), float(y)), h, float(cols[i]) if many else None] += 1
        if xs and not many:
            colour[tr.name] = cols
    return marks, lines, colour


def number(what, text):
    m = re.search(rf"{what} (\d+)", text)
    return int(m.group(1)) if m else None


# ------------------------------------------------------------------------- expected
class Want:
    """What a drawing of a lattice has to show, from the lattice alone."""

    def __init__(self, lat):
        self.data = {v.pos: i for i, v in enumerate(lat.dataqubits)}
        self.stab = {v.pos: (i, GROUPS[v.group.name]) for i, v in enumerate(lat.stabgens)}
        self.log = {v.pos: (i, v.name) for i, v in enumerate(lat.logical_ops)}
        self.lines = Counter()
        for v in [*lat.stabgens, *lat.logical_ops]:
            for e in v.edges:
                self.lines[e.factor.name, frozenset(((float(v.pos[0]), float(v.pos[1])), (float(e.data.pos[0]), float(e.data.pos[1]))))] += 1
        self.n, self.s = len(self.data), len(self.stab)


def frame(err, n):
    """The (qubit, Pauli) components of an operator given as (x, z)."""
    return Counter([(q, "X") for q in range(n) if err[0] >> q & 1] + [(q, "Z") for q in range(n) if err[1] >> q & 1])


def problems(fig, w, syndrome=0, error=None, correction=None, only=None, gr=False, stabs=True, edges=True, probs=None, base=None):
    """What is wrong with a figure (first thing found), or None."""
    marks, lines, colour = read(fig)
    if lines != (w.lines if edges else Counter()):
        return f"lines {sorted(map(str, lines - w.lines))}, missing {sorted(map(str, (w.lines if edges else Counter()) - lines))}"
    if any(k > 1 for k in marks.values()) or len({m[1] for m in marks}) != len(marks):
        return "marks on top of each other"
    seen = {"data": {}, "stab": {}, "log": {}}
    frames = {"error": Counter(), "correction": Counter()}
    for name, pos, h, c in marks:
        h = str(h)
        if name in FRAME:
            at = tuple(int(round(v)) for v in pos)
            kind, p = FRAME[name]
            if at not in w.data or number("Data qubit", h) != w.data[at]:
                return f"{name} at {pos} with text {h!r}"
            frames[kind][w.data[at], p] += 1
        elif name == "Data qubit":
            if pos not in w.data or number("Data qubit", h) != w.data[pos] or number("Ext. qubit", h) != w.data[pos]:
                return f"data qubit at {pos} with text {h!r}"
            if probs is not None and (c != probs[w.data[pos]] or f"p = {probs[w.data[pos]]}" not in h):
                return f"data qubit {w.data[pos]} with colour value {c} and text {h!r}, error probability {probs[w.data[pos]]}"
            seen["data"][pos] = 1
        elif name == "Logical operator":
            if pos not in w.log or number("Logical", h.split("<br />", 1)[1]) != w.log[pos][0] or not h.startswith(w.log[pos][1] + "<br />") or number("Ext. qubit", h) != w.n + w.s + w.log[pos][0]:
                return f"logical operator at {pos} with text {h!r}"
            seen["log"][pos] = 1
        else:
            if pos not in w.stab:
                return f"{name} at {pos}"
            i, g = w.stab[pos]
            on = bool(syndrome >> i & 1)
            if (name != ("Toggled " + g.replace("Stab", "stab") if on else g) or ("Syndrome set" in h) != on
                    or number("Stabgen", h) != i or number("Ext. qubit", h) != w.n + i):
                return f"{name} at {pos} with text {h!r}, generator {i} of {g!r}, syndrome bit {on}"
            seen["stab"][pos] = 1
    if set(seen["data"]) != set(w.data) or set(seen["stab"]) != (set(w.stab) if stabs else set()):
        return f"missing or extra marks: {seen}"
    if stabs and set(seen["log"]) != set(w.log):
        return f"missing logical operators: {seen}"
    for kind, e in (("error", error), ("correction", correction)):
        want = Counter() if e is None else frame(e, w.n)
        if only:
            want = Counter({k: v for k, v in want.items() if k[1] == only})
        if frames[kind] != want:
            return f"{kind} shown at {sorted(frames[kind])}, is {sorted(want)}"
    for name, c in colour.items():
        always = name in FRAME or name.startswith("Toggled")
        if (gr and not always) != grey(c):
            return f"{name} drawn with colour {c}, grey={gr}"
        if base is not None and not (gr and not always) and base.setdefault(name, c) != c:
            return f"{name} drawn with colour {c}, earlier {base[name]}"
    return None


def tableau(e, n):
    return np.array([e[0] >> q & 1 for q in range(n)] + [e[1] >> q & 1 for q in range(n)] + [0], dtype="u1")


def bits(s, n, dtype=bool):
    return np.array([s >> i & 1 for i in range(n)], dtype=dtype)


def mpl_problem(vis, w):
    fig = plt.figure()
    try:
        ax = fig.add_subplot()
        vis.draw_lattice_mpl(ax)
        lines, marks = Counter(), {}
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        for ln in ax.lines:
            xs, ys = (np.asarray(a, dtype=float) for a in (ln.get_xdata(), ln.get_ydata()))
            lab = ln.get_label()
            if lab in FACTOR:
                for s, k in segments(xs, ys).items():
                    lines[FACTOR[lab], s] += k
                continue
            for p in zip(xs, ys):
                if not (x0 <= p[0] <= x1 and y0 <= p[1] <= y1):
                    return f"{lab} at {p} is outside the axes"
                if p in marks:
                    return f"two marks at {p}"
                marks[p] = lab
        want = {**{p: "Data qubit" for p in w.data}, **{p: g for p, (_, g) in w.stab.items()}, **{p: "Logical operator" for p in w.log}}
        if marks != want:
            return f"marks {marks}, expected {want}"
        if lines != w.lines:
            return f"lines {sorted(map(str, lines - w.lines))}, missing {sorted(map(str, w.lines - lines))}"
        shown = {t.get_text() for t in ax.get_legend().get_texts()} if ax.get_legend() else set()
        need = set(want.values()) | {f"Pauli {f}" for f, _ in w.lines}
        if shown != need:
            return f"legend {shown}, expected {need}"
        return None
    finally:
        plt.close(fig)


# ------------------------------------------------------------------------- lattices
def custom_lattices():
    """Small lattices made vertex by vertex: every choice of kinds, and of the operators' factors."""
    pos = [(0, 0), (0, 1), (1, 0), (1, 1)]
    kinds = "DABUL."
    for ks in product(kinds, repeat=4):
        ds = [p for p, k in zip(pos, ks) if k == "D"]
        ops = [p for p, k in zip(pos, ks) if k in "ABUL"]
        if len(ds) == 1 and len(ops) <= 2 or len(ds) == 2 and len(ops) == 1 or not ds:
            for fs in product("IXYZ", repeat=len(ds) * len(ops)):
                yield ks, fs


def custom(ks, fs):
    pos = [(0, 0), (0, 1), (1, 0), (1, 1)]
    lat = L.CodeLattice((2, 2))
    for p, k in zip(pos, ks):
        if k == "D":
            lat.add_data(p)
        elif k == "L":
            lat.add_logical(p, f"name{p[0]}{p[1]}")
        elif k in "ABU":
            lat.add_stabgen(p, L.StabGroup[k])
    it = iter(fs)
    for d in list(lat.dataqubits):
        for o in [*lat.stabgens, *lat.logical_ops]:
            f = next(it)
            if f != "I":
                lat.add_edge(d, o, L.Pauli[f])
    lat.assign_indices()
    return lat


def strings(n):
    return ["".join(s) for s in product("IXYZ", repeat=n) if set(s) != {"I"}]


def from_ops(stabs, logs):
    # from_operators wants the full length: trailing identities are kept
    return codes.LatticeCode.from_operators([pauli.string_to_pauli(s, len(s)) for s in stabs], [pauli.string_to_pauli(s, len(s)) for s in logs], n_rounds=1)


def lattice_case(sh, key, code, lat):
    w = Want(lat)
    for arg in ([code] if code is not lat else []) + [lat]:
        with sh.guard("lattice", key):
            vis = LatticeVisualizer(arg)
            sh.count(states=1, transitions=2, executions=2)
            sh.case((key, arg is lat))
            p = problems(vis.draw_lattice(), w)
            sh.check(p is None, "lattice", p, key)
            if w.n:
                pr = np.array([(7 * i + 3) % 11 / 16 for i in range(w.n)])
                p = problems(LatticeVisualizer(arg, pr).draw_lattice(), w, probs=pr)
                sh.check(p is None, "lattice:probs", p, key)
            p = mpl_problem(vis, w)
            sh.check(p is None, "lattice:mpl", p, key)


def lattices(sh, item):
    kind, arg = item
    if kind == "family":
        c = C.make(*arg)
        lattice_case(sh, item, c, c.lattice)
    elif kind == "ops":
        n, part, of = arg
        todo = [([s], [a]) for s in strings(n) for a in strings(n)] + [([s, t], []) for s, t in combinations(strings(n), 2)]
        for stabs, logs in todo[part::of]:
            with sh.guard("lattice", (stabs, logs)):
                if C.anti(*(C.op(pauli.string_to_pauli(s, n)) for s in (stabs + logs))):
                    continue
                lat = L.CodeLatticeFromStab(n, stabs, logs)
                lattice_case(sh, (stabs, logs), lat, lat)
    elif kind == "custom":
        for k, (ks, fs) in enumerate(custom_lattices()):
            if k % 40 == arg:
                lat = custom(ks, fs)
                lattice_case(sh, (ks, fs), lat, lat)
    elif kind == "faulty":
        d, qs, gauge, join = arg
        from plaquette.codes.latticeinstances import PlanarCodeLattice
        lat = PlanarCodeLattice(d)
        try:
            lat.apply_fabrication_errors(faulty_qubits=list(qs), keep_gauge=gauge, boundary_join=join)
        except Exception:  # what can be removed is another property's (P11)
            sh.count(not_removable=1)
            return
        lattice_case(sh, item, lat, lat)
    elif kind == "refused":
        with sh.guard("refused", item):
            lat = L.CodeLattice((2, 2, 2))
            lat.add_data((0, 0, 0))
            lat.assign_indices()
            sh.case(item)
            for what, fn in (("shape", lambda: LatticeVisualizer(lat)),
                             ("probs", lambda: LatticeVisualizer(C.make("planar", 2), np.zeros(4))), ("probs", lambda: LatticeVisualizer(C.make("planar", 2), np.zeros(9)))):
                try:
                    fn()
                    sh.fail(f"refused:{what}", "accepted", what)
                except ValueError:
                    sh.count(states=1, transitions=1)


# ------------------------------------------------------------------------- data
OPTIONS = [dict(only_pauli=o, grey=g, draw_stabs=s, draw_edges=e) for o in (None, "X", "Z") for g in (True, False) for s in (True, False) for e in (True, False)]


def draw(vis, w, s, e, c, o):
    kw = dict(o)
    if s is not None:
        kw["syndrome"] = bits(s, w.s, ("?", "u1", "i8")[(s + w.n) % 3])
    if e is not None:
        kw["error"] = [tableau(e, w.n)]
    if c is not None:
        kw["correction"] = [tableau(c, w.n)]
    before = {k: np.array(v) for k, v in kw.items() if k in ("syndrome", "error", "correction")}
    fig = vis.draw_latticedata(**kw)
    if not all(np.array_equal(before[k], np.array(kw[k])) for k in before):
        raise Violation("data:argument", "drawing changed an argument", (s, e, c, o))
    return fig


def want_of(s, e, c, o):
    return dict(syndrome=s or 0, error=e, correction=c, only=o.get("only_pauli"), gr=o.get("grey", True), stabs=o.get("draw_stabs", True), edges=o.get("draw_edges", True))


def data(sh, item):
    fam, d, part, of, deep = item
    code = C.make(fam, d)
    w = Want(code.lattice)
    base = {}
    with sh.guard("data", item, 3600):
        vis = LatticeVisualizer(code)
        cases = []
        # every syndrome with every choice of options
        ss = range(1 << w.s) if w.s <= 4 else [1 << i for i in range(w.s)] + [(1 << w.s) - 1, 0]
        cases += [(s, None, None, o) for s in ss for o in (OPTIONS if deep or w.s <= 4 else OPTIONS[::5])]
        # every error, as error or correction, with the options in turn
        if w.n <= 5:
            es = [(x, z) for x in range(1 << w.n) for z in range(1 << w.n)]
        else:
            one = [(a << q, b << q) for q in range(w.n) for a, b in ((1, 0), (0, 1), (1, 1))]
            es = [(0, 0), *one] + [(a[0] ^ b[0], a[1] ^ b[1]) for a, b in combinations(one, 2)]
        step = 1 if deep or w.n <= 5 else 4
        for i, e in enumerate(es[::step]):
            f = es[(7 * i + 5) % len(es)]
            cases.append((i % (1 << w.s) if i % 2 else None, *((e, None), (None, e), (e, f))[i % 3], OPTIONS[(i + i // 24) % 24]))
        for s, e, c, o in cases[part::of]:
            p = problems(draw(vis, w, s, e, c, o), w, base=base, **want_of(s, e, c, o))
            sh.count(states=1, transitions=1, executions=1)
            sh.case((fam, d, s, e, c, o))
            if not sh.check(p is None, "data", p, (fam, d, s, e, c, o)):
                if len(sh.viol) > 6:
                    return


# ------------------------------------------------------------------------- histories
def calls(w):
    """Alphabet of drawings, the last ones refused."""
    n, s = w.n, w.s
    full = (1 << n) - 1
    return [("lattice",), ("data", None, None, None, {}), ("data", 1, (1, 0), None, {}), ("data", (1 << s) - 1, None, (0, full), dict(grey=False)),
            ("data", 2, (full, 1), (1, full), dict(only_pauli="X", draw_stabs=False)), ("data", None, (0, 2), None, dict(grey=False, only_pauli="Z", draw_edges=False)), ("mpl",),
            ("bad", dict(height="high")), ("bad", dict(grey=False, margin="wide")), ("bad", dict(syndrome="short")), ("bad", dict(error="short"))]


def history(sh, item):
    fam, d, first, depth, two = item
    code = C.make(fam, d)
    other = C.make("rotated", 2)
    ws = [Want(code.lattice), Want(other.lattice)]
    al = calls(ws[0])
    todo = [(first, *r) for r in product(range(len(al)), repeat=depth - 1)]
    snapshot = repr(code.lattice.edges), repr(code.stabilisers), repr(code.lattice.vertices)
    for seq in todo:
        with sh.guard("history", (fam, d, seq)):
            viss = [LatticeVisualizer(code), LatticeVisualizer(other)]
            base = {}
            for k, i in enumerate(seq):
                a, j = al[i], k % 2 if two else 0
                vis, w = viss[j], ws[j]
                if a[0] == "bad":
                    kw = dict(a[1])
                    if kw.get("syndrome") == "short":
                        kw["syndrome"] = np.ones(w.s - 1, dtype=bool)
                    if kw.get("error") == "short":
                        kw["error"] = [np.zeros(3, dtype="u1")[:2]]
                    try:
                        vis.draw_latticedata(**kw)
                    except Exception:  # how it is refused does not matter here
                        pass
                    continue
                if a[0] == "mpl":
                    p = mpl_problem(vis, w)
                elif a[0] == "lattice":
                    p = problems(vis.draw_lattice(), w, base=base)
                else:
                    s, e, c, o = a[1:]
                    p = problems(draw(vis, w, s, e, c, o), w, base=base, **want_of(s, e, c, o))
                if not sh.check(p is None, "history", p, (fam, d, [al[x] for x in seq[:k + 1]], two)):
                    break
            sh.count(states=1, transitions=len(seq), executions=1)
            sh.case((fam, d, seq, two))
        if len(sh.viol) > 6:
            return
    sh.check(snapshot == (repr(code.lattice.edges), repr(code.stabilisers), repr(code.lattice.vertices)), "history:changed", "drawing changed the code", item)


# ------------------------------------------------------------------------- circuits
@contextmanager
def drawn():
    """Records the circuits Qiskit is asked to draw, and how."""
    # every way of drawing with Matplotlib ends there
    mod = importlib.import_module("qiskit.visualization.circuit.circuit_visualization")
    real, got = mod._matplotlib_circuit_drawer, []

    def spy(circuit, *a, **k):
        got.append((circuit.copy(), a, k))
        return plt.Figure()
    mod._matplotlib_circuit_drawer = spy
    try:
        yield got
    finally:
        mod._matplotlib_circuit_drawer = real


def instructions(qc):
    out = []
    for ins in qc.data:
        qs = [qc.find_bit(q).index for q in ins.qubits]
        out.append((ins.operation.name, tuple(sorted(qs) if ins.operation.name == "cz" else qs), tuple(qc.find_bit(c).index for c in ins.clbits)))
    return out


NAME = {"X": "x", "Y": "y", "Z": "z", "H": "h", "CX": "cx", "CZ": "cz", "M": "measure", "R": "reset"}


def expected(seq, reset=True):
    out, m = [], 0
    for g, args in seq:
        if g in ("CX", "CZ"):
            out += [(NAME[g], tuple(sorted(args[i:i + 2]) if g == "CZ" else args[i:i + 2]), ()) for i in range(0, len(args), 2)]
        elif g == "M":
            for q in args:
                out.append(("measure", (q,), (m,)))
                m += 1
        elif g != "R" or reset:
            out += [(NAME[g], (q,), ()) for q in args]
    return out


def per_qubit(ins):
    """What is drawn is a partial order: the sequence on each wire."""
    out = {}
    for i in ins:
        for q in i[1]:
            out.setdefault(q, []).append(i)
    return out


def circuits(sh, item):
    n, first, depth = item
    al = p09.A if n == 2 else p09.A3
    for rest in product(range(len(al)), repeat=depth - len(first)):
        seq = [al[i] for i in (*first, *rest)]
        with sh.guard("circuit", seq):
            c = p09.build(seq)
            text = str(c)
            with drawn() as got:
                v = CircuitVisualizer(c)
                v.draw_circuit()
                v.draw_circuit()
            sh.count(states=1, transitions=len(seq), executions=1)
            sh.case(seq)
            if not sh.check(len(got) == 2 and str(c) == text, "circuit:draws", f"{len(got)} drawings", seq):
                continue
            for qc, _, _ in got:
                ins = instructions(qc)
                nq = max(q for _, a in seq for q in a) + 1
                ok = per_qubit(ins) == per_qubit(expected(seq)) and qc.num_qubits == nq and len(ins) == len(expected(seq))
                if not ok and per_qubit(ins) == per_qubit(expected(seq, False)) and any(g == "R" for g, _ in seq):
                    sh.fail("circuit:reset-dropped", f"drawn {ins}, the circuit is {seq}", seq)
                else:
                    sh.check(ok, "circuit", f"drawn {ins} on {qc.num_qubits} qubits, the circuit is {seq}", seq)


def unsupported(sh, i):
    bad = p09.BAD[i]
    for seq in ([bad], [("H", (0,)), bad], [("M", (0,)), ("CX", (0, 1)), bad]):
        if bad[0] in ("ERROR_CONTINUE", "ERROR_ELSE"):
            seq = seq[:-1] + [("ERROR", (0.5, "X", 0)), seq[-1]]
        sh.case(seq)
        sh.count(states=1, transitions=1)
        with sh.guard("unsupported", seq):
            c = p09.build(seq)
            try:
                CircuitVisualizer(c)
                sh.fail("unsupported", "a circuit with errors was drawn without them", seq)
            except GateNotSupportedError:
                pass


def render(sh, _):
    """The figure is really made."""
    with sh.guard("render", None):
        for s in ("H 0\nCX 0 1\nM 0 1", "X 0\nY 1\nZ 0\nCZ 0 2\nM 2\nH 2"):
            fig = CircuitVisualizer(Circuit.from_str(s)).draw_circuit()
            sh.check(isinstance(fig, plt.Figure), "render", f"{type(fig)}", s)
            sh.case(s)
            plt.close("all")


def plan(tier):
    t = tier == "thorough"
    fams = [f for f in C.sized(tier) if f[1] <= (7 if t else 5)]
    items = [("lattices", ("family", f)) for f in fams] + [("lattices", ("refused", 0)), ("render", 0)]
    items += [("unsupported", i) for i in range(len(p09.BAD))]
    items += [("circuits", (2, (i,), 1)) for i in range(len(p09.A))] + [("circuits", (2, (i,), 2)) for i in range(len(p09.A))]
    items += [("circuits", (3, (i,), 3 if t else 2)) for i in range(len(p09.A3))]
    if t:
        items += [("circuits", (2, (i, j), 3)) for i in range(len(p09.A)) for j in range(len(p09.A))]
    items += [("lattices", ("custom", i)) for i in range(40) if t or i % 2 == 0]
    items += [("lattices", ("ops", (1, 0, 1)))] + [("lattices", ("ops", (2, i, 8))) for i in range(8)]
    if t:
        items += [("lattices", ("ops", (3, i, 64))) for i in range(0, 64, 4)]
    for d in (2, 3) if t else (3,):
        qs = [v.pos for v in C.make("planar", d).lattice.dataqubits]
        for k in (1, 2):
            for sub in combinations(qs, k):
                for g, j in (("none", False), ("half", False), ("all", False), ("none", True)):
                    if t or k == 1 or g == "none":
                        items.append(("lattices", ("faulty", (d, sub, g, j))))
    small = [("repetition", 3), ("rotated", 2), ("planar", 2), ("five", 5)]
    items += [("data", (*f, i, 8, t)) for f in small for i in range(8)]
    items += [("data", (*f, i, 8, t)) for f in (("xzzx", 3), ("toric", 2), ("planar", 3), ("shor", 9)) for i in (range(8) if t else (1, 4))]
    n = len(calls(Want(C.make("planar", 2).lattice)))
    items += [("history", ("planar", 2, i, (4 if t else 3) - two, two)) for two in (False, True) for i in range(n)]
    if t:
        items += [("history", (*f, i, 3, False)) for f in (("xzzx", 3), ("repetition", 3)) for i in range(n)]
    return items


def finish(n, tier):
    assert n["states"] > 5000, n
    return {}
