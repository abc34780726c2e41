"""P20: error tables, error files and error dictionaries say the same thing."""
import copy
import math
import os
import shutil
import tempfile
import warnings
from itertools import combinations, permutations, product

import numpy as np
import pandas as pd
from plaquette.errors import ErrorData

from .. import codes as C

LEVEL = "model_checking"
RULE = ("state = a table of errors (a plain dictionary model and the real ErrorData side by side); transition = one operation (add, update, overwrite, load, enable, add gate error, save and load back); "
        "all sequences up to the depth; after each, the dictionaries handed to the simulators must contain exactly the model's errors; non-trivial = distinct sequence")
ASSUMPTIONS = ["missing values and probabilities of zero both mean that the error does not happen",
               "updates name only qubits that are in the table already"]
CHUNK = 1
QUBITS = ((0, "data"), (1, "data"), (2, "data"), (3, "stab"), (4, "stab"))


class Model:
    """The intended meaning, in plain dictionaries."""

    def __init__(self, types=None, cols=None, rows=()):
        self.types = dict(types or {})
        self.cols = {c: dict(v) for c, v in (cols or {}).items()}
        self.rows = list(rows)
        self.on_q, self.on_g = set(self.cols), {r[0] for r in self.rows}

    def expected(self):
        out = {}
        for c in self.on_q:
            for q, p in self.cols[c].items():
                data = self.types[q] == "data"
                if p and (data if c != "measurement" else not data):
                    kind, ch = ("pauli", c.lower()) if c in "XYZ" else (c, "p")
                    out[kind, q, ch] = p
        gates = {}
        for g, qs, errs, ps in self.rows:
            if g in self.on_g:
                targets = qs if g in "HRM" else list(zip(qs[::2], qs[1::2]))
                for q in targets:
                    gates[g, q] = {e.lower(): p for e, p in zip(errs, ps) if p}
        out.update({(g, q, e): p for (g, q), d in gates.items() for e, p in d.items()})
        return out


def flat(d):
    """A real dictionary of errors in the same form."""
    return {(k, q, ch): p for k, e in d.items() for q, v in e.items() for ch, p in v.items() if not p == 0}


def same(a, b):
    return a.keys() == b.keys() and all(math.isclose(float(a[k]), float(b[k]), rel_tol=1e-12) for k in a)


# ------------------------------------------------------------------------- operations
def table(cols, types=QUBITS, order=None):
    names = order or ["qubit_id", "qubit_type", *cols]
    src = {"qubit_id": [q for q, _ in types], "qubit_type": [t for _, t in types]}
    src.update({c: [cols[c].get(q, np.nan) for q, _ in types] for c in cols})
    return pd.DataFrame({n: src[n] for n in names})


def gates(rows):
    return pd.DataFrame({"gate": [r[0] for r in rows], "on_qubits": [list(r[1]) for r in rows], "induced_errors": [list(r[2]) for r in rows], "probs": [list(r[3]) for r in rows]})


def gates_csv(path, rows, order=(0, 1, 2, 3)):
    names = ("gate", "on_qubits", "induced_errors", "probs")
    with open(path, "w") as f:
        f.write(",".join(names[i] for i in order) + "\n")
        for r in rows:
            cells = [r[0], *("|".join(str(x) for x in c) for c in r[1:])]
            f.write(",".join(cells[i] for i in order) + "\n")


T1 = {"X": {0: .11, 1: .12, 2: .13, 3: .14, 4: .15}}
T2 = {"X": {1: .21}, "erasure": {0: .31, 2: .32, 4: .33}}
T3 = {"measurement": {0: .4, 3: .41, 4: .42}, "Y": {2: .05, 0: .06}}
TABLES = {"x": (T1, None, None), "sparse": (T2, ((1, "data"), (0, "data"), (4, "stab"), (2, "data")), None), "new": (T3, tuple(reversed(QUBITS)), ("Y", "qubit_id", "measurement", "qubit_type"))}
G1 = [("H", [3], ["X"], [.01])]
G2 = [("CX", [3, 0, 3, 1], ["XX", "ZI"], [.02, .03]), ("H", [3, 4], ["Y", "Z"], [.04, .05]), ("CX", [3, 1], ["IY"], [.06])]
G3 = [("M", [4], ["Z"], [.07]), ("CZ", [4, 2], ["ZZ"], [.08]), ("R", [3, 4], ["X"], [.09])]
GROWS = {"one": G1, "many": G2, "three": G3}
FULL = dict(QUBITS)


def merge(m, key, overwrite):
    cols, types, _ = TABLES[key]
    types = dict(types or QUBITS)
    if overwrite or not m.types:
        m.types = types
        m.cols = {c: {q: p for q, p in v.items() if q in types} for c, v in cols.items()}
    else:
        for c, v in cols.items():
            m.cols.setdefault(c, {}).update({q: p for q, p in v.items() if q in types and q in m.types})
    m.on_q = set(m.cols)


def load_gates(m, key, overwrite):
    m.rows = list(GROWS[key]) if overwrite else m.rows + GROWS[key]
    m.on_g = {r[0] for r in m.rows}


class Refused(Exception):
    pass


def apply(op, ed, m, tmp):
    """Run one operation on the real object and on the model."""
    what, args = op[0], op[1:]
    if what == "add":
        name, ids, ps = args
        if name in m.cols:
            raise_expected(lambda: ed.add_qubit_error(list(ids), name, list(ps)), op)
            return ed
        ed.add_qubit_error(list(ids), name, list(ps))
        m.cols[name] = dict.fromkeys(m.types, 0.0) | {q: p for q, p in zip(ids, ps)}
        m.on_q.add(name)
    elif what == "set":
        name, ids, ps = args
        call = (lambda: ed.update_qubit_error(ids, name, ps)) if isinstance(ids, int) else (lambda: ed.update_qubit_error(list(ids), name, list(ps)))
        if name not in m.cols or not isinstance(ids, int) and len(ids) != len(ps):
            raise_expected(call, op)
            return ed
        call()
        m.cols[name].update(zip((ids,), (ps,)) if isinstance(ids, int) else zip(ids, ps))
    elif what == "gate":
        g, qs, errs, ps = args
        ed.add_gate_error(g, list(qs), list(errs), list(ps))
        m.rows.append((g, list(qs), list(errs), list(ps)))
        m.on_g.add(g)
    elif what in ("qframe", "qcsv"):
        key, over = args
        df = table(*TABLES[key][:1], types=TABLES[key][1] or QUBITS, order=TABLES[key][2])
        if what == "qcsv":
            df.to_csv(tmp + "/in.csv", index=False)
            ed.update_from_csv(qubit_error_csv=tmp + "/in.csv", overwrite=over)
        else:
            before = df.copy()
            ed.update(qubit_errors=df, overwrite=over)
            if not df.equals(before) or list(df.columns) != list(before.columns):
                raise Refused("the given table was changed")
        merge(m, key, over)
    elif what in ("gframe", "gcsv"):
        key, over = args
        if what == "gcsv":
            gates_csv(tmp + "/ing.csv", GROWS[key])
            ed.update_from_csv(gate_error_csv=tmp + "/ing.csv", overwrite=over)
        else:
            df = gates(GROWS[key])
            before = df.copy()
            ed.update(gate_errors=df, overwrite=over)
            if not df.equals(before):
                raise Refused("the given table was changed")
        load_gates(m, key, over)
    elif what == "only":
        kind, names = args
        if kind == "q":
            m.on_q = set(names) & set(m.cols)
            ed.enabled_qubit_errors = set(m.on_q)
        else:
            m.on_g = set(names) & {r[0] for r in m.rows}
            ed.enabled_gate_errors = set(m.on_g)
    elif what == "disk":
        ed.save_to_csv(tmp + "/q.csv", tmp + "/g.csv")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ed = ErrorData.from_csv(tmp + "/q.csv" if m.types else None, tmp + "/g.csv")
        m.on_q, m.on_g = set(m.cols), {r[0] for r in m.rows}
    return ed


def raise_expected(call, op):
    try:
        call()
    except (ValueError, TypeError, KeyError):
        return
    raise Refused(f"{op} was accepted")


OPS = [("add", "erasure", (0,), (.5,)), ("add", "measurement", (4, 3), (.51, .52)), ("add", "X", (1, 0, 3), (.1, .2, .3)),
       ("set", "X", 1, .61), ("set", "Z", (2, 0), (.62, .63)), ("set", "erasure", (0, 1, 2), (.64, .0, .65)), ("set", "X", (0, 1), (.1,)),
       ("gate", "H", (3, 4), ("X", "Z"), (.15, .16)), ("gate", "H", (4,), ("Y",), (.17,)), ("gate", "CX", (3, 0, 4, 1), ("XY",), (.18,)), ("gate", "CZ", (4, 2), ("IZ", "ZI"), (.19, .2)), ("gate", "M", (3,), ("X",), (.21,)),
       ("disk",), ("only", "q", ("X", "measurement")), ("only", "g", ("H", "CZ"))]
OPS += [(w, k, o) for w in ("qframe", "qcsv") for k in TABLES for o in (False, True)]
OPS += [(w, k, o) for w in ("gframe", "gcsv") for k in GROWS for o in (False, True)]
CORE = [o for o in OPS if o not in (("gframe", "one", True), ("gframe", "three", False), ("gcsv", "many", True), ("gcsv", "three", True), ("qcsv", "x", True), ("qframe", "new", True))
        and not (o[0] == "gate" and o[1] in "MH" and len(o[2]) == 1) and o[:2] not in (("gcsv", "many"), ("qframe", "x"))]
STARTS = ("lattice", "empty", "table", "csv")


def start(how, tmp):
    if how == "lattice":
        code = C.make("repetition", 3, 1)
        return ErrorData.from_lattice(code.lattice), Model(FULL, {c: dict.fromkeys(range(5), .1) for c in "XYZ"})
    if how == "empty":
        return ErrorData(), Model()
    if how == "table":
        types = ((4, "ancilla"), (1, "data"), (0, "data"), (3, "ancilla"), (2, "data"))
        cols = {"Z": {0: .1, 1: .2, 3: .9}, "measurement": {4: .3, 1: .8}}
        return ErrorData(qubit_errors=table(cols, types, ("qubit_type", "Z", "qubit_id", "measurement")), gate_errors=gates(G2)), Model(dict(types), cols, G2)
    with open(tmp + "/s.csv", "w") as f:
        f.write("qubit_id,qubit_type,X,Z,erasure,fabrication\n0,data,0.5,,0.125,\n2,data,,0.25,0,\n1,data,0.0625,0.1,,\n3,ancilla,0.1,,,\n4,ancilla,,,,\n")
    gates_csv(tmp + "/sg.csv", G1)
    m = Model(FULL, {"X": {0: .5, 1: .0625, 3: .1}, "Z": {2: .25, 1: .1}, "erasure": {0: .125}, "fabrication": {}}, G1)
    return ErrorData.from_csv(tmp + "/s.csv", tmp + "/sg.csv"), m


def compare(sh, ed, m, hist):
    want = m.expected()
    for view, part in (("qubit_errors_dict", lambda k: k in ("pauli", "erasure", "measurement")), ("gate_errors_dict", lambda k: k[0] in "CHRM" and k != "measurement"), ("error_data_dict", lambda k: True)):
        got = flat(getattr(ed, view))
        w = {k: p for k, p in want.items() if part(k[0])}
        if not sh.check(same(got, w), f"table:{view}", lambda: f"after {hist} it holds {dict(sorted(got.items(), key=repr))}, expected {dict(sorted(w.items(), key=repr))}", hist):
            return False
    return True


def step(sh, ed, m, op, hist, tmp):
    ed, m = copy.deepcopy(ed), copy.deepcopy(m)
    n = len(sh.viol)
    with sh.guard(f"table:{op[0]}", hist):
        try:
            ed = apply(op, ed, m, tmp)
        except Refused as e:
            sh.fail(f"table:{op[0]}", f"{e} after {hist}", hist)
            return None
        compare(sh, ed, m, hist)
    sh.case(hist)
    sh.count(transitions=1)
    return None if len(sh.viol) > n else (ed, m)


def histories(sh, item):
    how, first, depth, alphabet = item
    ops = OPS if alphabet == "all" else CORE
    tmp = tempfile.mkdtemp(prefix="mc-p20-")
    try:
        ed, m = start(how, tmp)
        compare(sh, ed, m, (how,))
        seen = set()

        def rec(ed, m, hist, left, todo):
            for op in todo:
                h = hist + (op,)
                if len(sh.viol) > 5:
                    return
                if op[0] == "only" and op[1] == "q" and not m.types:
                    continue
                # Qubits have to be in the table before errors are assigned to them.
                if op[0] in ("add", "set") and not m.types:
                    continue
                if op[0] in ("add", "set"):
                    ids = (op[2],) if isinstance(op[2], int) else op[2]
                    if not set(ids) <= set(m.types):
                        continue
                nxt = step(sh, ed, m, op, h, tmp)
                if nxt and left > 1:
                    seen.add(repr((nxt[1].expected(), sorted(nxt[1].cols))))
                    rec(*nxt, h, left - 1, ops)
        rec(ed, m, (how,), depth, [first])
        sh.count(states=len(seen) + 1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------- validation
def validation(sh, item):
    f, d, r = item
    code = C.make(f, d, r)
    data, stabs = list(range(code.n_data_qubits)), list(range(code.n_data_qubits, code.n_data_qubits + code.n_stabgens))
    ed = ErrorData()
    pairs = [(s, code.lattice.equbits[s].edges[0].data.equbit_idx) for s in stabs]
    n = len(data) + len(stabs)
    two = [a + b for a, b in product("ixyz", repeat=2) if a + b != "ii"]
    valid = {"pauli": (data, "xyz"), "erasure": (data, ["p"]), "measurement": (stabs, ["p"]), "CX": (pairs, two), "CZ": (pairs, two), "H": (stabs, "xyz"), "R": (stabs, "xyz"), "M": (stabs, "xyz")}
    entries = {k: [{q: {c: .1}} for q in qs for c in chs] + [{}] for k, (qs, chs) in valid.items()}

    def ok(e):
        sh.case((item, e))
        with sh.guard("validate:valid", e):
            ed.check_against_code(code, e)

    def bad(e):
        sh.case((item, e))
        try:
            ed.check_against_code(code, e)
        except Exception:  # noqa: BLE001
            sh.count(refused=1)
            return
        sh.fail("validate:accepted", f"{f} {d}: {e} is accepted", e)

    for k, es in entries.items():
        for e in es:
            ok({k: e})
    # every combination of kinds of error, with everything filled in
    for k in range(len(valid) + 1):
        for ks in combinations(valid, k):
            ok({x: {q: dict.fromkeys(valid[x][1], .01) for q in valid[x][0]} for x in ks})
    others = ["Pauli", "paulis", "X", "z", "Erasure", "erasures", "measure", "cx", "CY", "CNOT", "h", "S", "reset", "", "fabrication", 0, None]
    for x in others:
        bad({x: {}})
        bad({x: {0: {"p": .1}}})
        bad({"pauli": {0: {"x": .1}}, x: {}})
    channels = {"xyz": ["X", "p", "i", "xx", "w", "", "xy"], "p": ["x", "P", "prob", "", "z"], "two": ["x", "p", "ii", "XX", "Ix", "xxx", "", "xw"]}
    indices = [-1, n, n + 1, "0", 0.5, None, (0,), (0, 1), ()]
    for k, (qs, chs) in valid.items():
        kind = "two" if k[0] == "C" else "p" if list(chs) == ["p"] else "xyz"
        for q in (qs[0], qs[-1]):
            for c in channels[kind]:
                bad({k: {q: {c: .1}}})
                bad({k: {q: {chs[0]: .1, c: .1}}})
                bad({k: {qs[0]: {chs[0]: .1}, q: {c: .1}}} if q != qs[0] else {k: {q: {c: .0}}})
        wrong = [data, stabs][k in ("pauli", "erasure")]
        if kind == "two":
            s, q = pairs[0]
            wrong = [(q, s), (s, stabs[-1]), (data[0], q), (s,), (s, q, q), (-1, q), (s, -1), (n, q), (s, n), ("a", q), s, q]
        else:
            wrong = wrong + indices
        for q in wrong:
            bad({k: {q: {chs[0]: .1}}})
            bad({k: {qs[0]: {chs[0]: .1}, q: {chs[0]: .1}}})
            bad({k: {q: {chs[-1]: .1}, qs[-1]: {chs[0]: .1}}})


def files(sh, item):
    """Every small gate error file, cell by cell, as loaded through each entry point."""
    gate, = item
    tmp = tempfile.mkdtemp(prefix="mc-p20-")
    try:
        single = gate in "HRM"
        names = ["X", "Z", "Y"] if single else ["XX", "IZ", "YI"]
        qs = [[3], [3, 4], [4, 3]] if single else [[3, 0], [3, 0, 4, 1], [3, 0, 3, 1, 4, 2]]
        rows = [(gate, q, names[:k], [round(.01 * (i + 1) + .001 * k, 4) for i in range(k)]) for q in qs for k in (1, 2, 3)]
        rows += [(gate, qs[0], names[::-1][:1], [1]), (gate, qs[0], names[:2], [0, .5])]
        todo = [(rs, (0, 1, 2, 3)) for k in (1, 2) for rs in product(rows, repeat=k)]
        todo += [(rs, o) for rs in [*[(r,) for r in rows], *zip(rows, rows[3:])] for o in permutations(range(4)) if o != (0, 1, 2, 3)]
        code = C.make("planar", 2)
        for rs, order in todo:
            k = len(rs)
            want = Model(rows=rs).expected()
            gates_csv(tmp + "/g.csv", rs, order)
            sh.case((gate, rs, order))
            with sh.guard("file", rs):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    a = ErrorData.from_csv(None, tmp + "/g.csv")
                b = ErrorData()
                b.update_from_csv(gate_error_csv=tmp + "/g.csv")
                c = ErrorData.from_lattice(code.lattice, None, ({gate: ("user",)}, tmp + "/g.csv"))
                for e, how in ((a, "from_csv"), (b, "update_from_csv"), (c, "from_lattice")):
                    got = flat(e.gate_errors_dict)
                    sh.check(same(got, want), f"file:{how}", lambda: f"{rs} loads as {got}, expected {want}", (rs, order))
                if rs[0][2:] == rows[0][2:] or k == 1:
                    a.save_to_csv(tmp + "/q.csv", tmp + "/h.csv")
                    b = ErrorData()
                    b.update_from_csv(gate_error_csv=tmp + "/h.csv")
                    got = flat(b.gate_errors_dict)
                    sh.check(same(got, want), "file:saved", lambda: f"{rs} is {got} after saving and loading", rs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def precision(sh, item):
    """Probabilities that need all their digits survive every file."""
    which, = item
    rng = np.random.default_rng(5)
    vals = [1 / 3, .1 + .2, 2 / 3, 1e-3 / 3, 1 - 2 ** -53, 2 ** -53, 1e-17, 5e-324, 1e-300, .123456789012345678, 1.0, 0.5, 1e-5, 1 / 7, *rng.random(200), *(rng.random(60) * 1e-3), *(rng.random(40) * 1e-9)]
    tmp = tempfile.mkdtemp(prefix="mc-p20-")
    try:
        code = C.make("repetition", 3, 1)
        for i in range(0, len(vals), 2):
            for swap in (0, 1):
                a, b = vals[i + swap], vals[i + 1 - swap]
                case = (which, a, b)
                sh.case(case)
                sh.count(transitions=2, states=1)
                with sh.guard("precision", case):
                    ed = ErrorData.from_lattice(code.lattice, ({}, tmp + "/none.csv"))
                    if which in HRMC:
                        q = (3, 0) if which[0] == "C" else 3
                        chs = ("XY", "IZ") if which[0] == "C" else ("X", "Z")
                        ed.add_gate_error(which, [3, 0] if which[0] == "C" else [3], list(chs), [a, b])
                        want = {(which, q, chs[0].lower()): a, (which, q, chs[1].lower()): b}
                        sect = (None, ({which: ("user",)}, tmp + "/g.csv"))
                    else:
                        qs = (3, 4) if which == "measurement" else (0, 2)
                        ed.add_qubit_error(list(qs), which, [a, b])
                        k = ("pauli", which.lower()) if which in "XYZ" else (which, "p")
                        want = {(k[0], q, k[1]): p for q, p in zip(qs, (a, b))}
                        sect = (({which: ("user",)}, tmp + "/q.csv"), None)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        ed.save_to_csv(tmp + "/q.csv", tmp + "/g.csv")
                        up = ErrorData()
                        up.update_from_csv(qubit_error_csv=tmp + "/q.csv", gate_error_csv=tmp + "/g.csv")
                        on = ErrorData.from_lattice(code.lattice)
                        on.update_from_csv(qubit_error_csv=tmp + "/q.csv", gate_error_csv=tmp + "/g.csv")
                        on.enabled_qubit_errors = {which} - set(HRMC)
                        for name, e in (("given", ed), ("from_csv", ErrorData.from_csv(tmp + "/q.csv", tmp + "/g.csv")), ("update_from_csv", up), ("on top", on), ("from_lattice", ErrorData.from_lattice(code.lattice, *sect))):
                            got = flat(e.error_data_dict)
                            sh.check(got == want, "precision:" + name, f"{got} instead of {want}", case)
                if len(sh.viol) > 3:
                    return
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


HRMC = ("H", "R", "M", "CX", "CZ")


def plan(tier):
    t = tier == "thorough"
    items = [("histories", (how, op, 2, "all")) for how in STARTS for op in OPS]
    if t:
        items = [("histories", (how, op, 3, "all")) for how in STARTS for op in OPS]
    else:
        items += [("histories", (how, op, 3, "core")) for how in ("lattice",) for op in CORE]
    items += [("validation", x) for x in [("repetition", 3, 1), ("five", 5, 1), ("rotated", 3, 2), ("planar", 2, 1), ("toric", 2, 1)]]
    items += [("files", (g,)) for g in HRMC]
    items += [("precision", (w,)) for w in ("X", "Y", "Z", "erasure", "measurement", *HRMC)]
    return items


def finish(n, tier):
    assert n["refused"] > 100 and n["transitions"] > 1000
