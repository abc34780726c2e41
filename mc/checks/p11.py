"""P11: editing a code lattice, and fabrication errors."""
import warnings
from itertools import combinations, permutations

from plaquette.circuit.generator import generate_qec_circuit
from plaquette.codes import latticebase as lb

from .. import codes as C
from .. import qec
from .p10 import ops_of, structure, valid

LEVEL = "model_checking"
RULE = ("state = edited code lattice; transition = removal of one data qubit (requested as qubit, gate or stabiliser) or one low-level "
        "edit; every set of removals up to the stated size on every planar code in range, compared step by step with a reference "
        "on sets of operators; non-trivial = distinct set of removals")
ASSUMPTIONS = ["reference: the removal rule of Auger et al. as documented, on integer masks",
               "edits that leave no stabiliser at all are not judged", "codes whose generators do not commute (keep_gauge=\"all\") are only compared with the documented generators"]
CHUNK = 4


def plan(tier):
    t = tier == "thorough"
    items = [("single", (f, d)) for f, d in [("planar", 2), ("planar", 3), ("planar", 4), ("rotated", 3), ("toric", 3), ("planar", 5)]]
    for f, d, w in [("planar", 2, 3), ("planar", 3, 5 if t else 4), ("planar", 4, 4 if t else 3), ("rotated", 3, 5 if t else 3), ("toric", 3, 3 if t else 2), ("toric", 2, 4 if t else 2), ("planar", 5, 3 if t else 2)]:
        n = C.PARAMS[f](d)[0]
        items += [("sets", (f, d, w, q)) for q in range(n)]
    items += [("gates", (f, d)) for f, d in (("planar", 2), ("planar", 3), ("planar", 4))]
    items += [("refused", (f, d)) for f, d in (("planar", 3),)]
    items += [("steps", (f, d)) for f, d in (("planar", 2), ("planar", 3), ("rotated", 3))]
    items += [("lowlevel", (f, d)) for f, d in (("planar", 2), ("planar", 3), ("rotated", 3), ("toric", 2), ("five", 5), ("repetition", 5))]
    items += [("named", (f, d, q)) for f, d in (("planar", 2), ("planar", 3), ("rotated", 3)) for q in range(C.PARAMS[f](d)[0])]
    items += [("modes", (f, d, q)) for f, d in (("planar", 2), ("planar", 3), ("planar", 4), ("rotated", 3)) for q in range(C.PARAMS[f](d)[0])]
    items += [("circuits", (f, d, q, t)) for f, d in [("planar", 2), ("planar", 3), ("planar", 4)] for q in range(C.PARAMS[f](d)[0])]
    return items


class Ref:
    """Generators and logical operators as sets of (qubit position, letter) factors."""

    def __init__(self, lat):
        f = lambda v: frozenset((e.data.pos, e.factor.name) for e in v.edges)
        self.stabs = {v.pos: f(v) for v in lat.stabgens}
        self.logs = [f(v) for v in lat.logical_ops]

    def remove(self, q):
        """Documented removal of a data qubit; None if no logical operator is left."""
        groups = {}
        for pos, s in self.stabs.items():
            for p, letter in s:
                if p == q:
                    groups.setdefault(letter, []).append(pos)
        for i, lo in enumerate(self.logs):
            for p, letter in list(lo):
                if p == q:
                    if letter not in groups:
                        return False
        full = all(len(g) == 2 for g in groups.values())
        for g in groups.values():
            if full:
                self.stabs[g[0]] = self.stabs[g[0]] ^ self.stabs[g[1]]
                del self.stabs[g[1]]
            elif len(g) == 1:
                del self.stabs[g[0]]
            else:
                for pos in g:
                    self.stabs[pos] = frozenset(x for x in self.stabs[pos] if x[0] != q)
        return True


def mask(factors, index):
    x = z = 0
    for p, letter in factors:
        b = 1 << index[p]
        x ^= b if letter in "XY" else 0
        z ^= b if letter in "ZY" else 0
    return x, z


def factors(v):
    return frozenset((e.data.pos, e.factor.name) for e in v.edges)


def apply(code, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        code.apply_fabrication_errors(**kw)


def record(code):
    lat = code.lattice
    at = lambda v: (v.pos, v.equbit_idx, [w.pos for w in v.neighbours], [(e.data.pos, e.op.pos, e.factor.name, e.measurement_time_step) for e in v.edges])
    return [list(map(at, vs)) for vs in (lat.vertices, lat.dataqubits, lat.stabgens, lat.logical_ops, lat.equbits)] + [
        [v.dataqubit_idx for v in lat.dataqubits], [v.stabgen_idx for v in lat.stabgens], [v.logical_idx for v in lat.logical_ops],
        [(e.data.pos, e.op.pos, e.factor.name) for e in lat.edges], sorted(v.pos for v in lat.lattice.flat if v is not None), lat.fabrication_err_keep_gauge, lat.fabrication_err_boundary_join,
        lat.n_time_steps, [C.op(s) for s in code.stabilisers], [C.op(s) for s in code.logical_ops], code.n_data_qubits]


def unchanged(sh, code, base, case):
    """A refused request leaves everything as it was, and the code can still be edited."""
    structure(sh, code, case)
    sh.check(record(code) == record(base), "refused:changed", "a refused request changed the code", case)


def judge(sh, fam, d, removed, case, **kw):
    """Apply a set of removals to a fresh code; returns the code or None if refused."""
    code = C.make(fam, d, 2)
    lat = code.lattice
    before = {v.pos: v for v in lat.dataqubits}
    ref0 = Ref(lat)
    ref = Ref(lat)
    index0 = {v.pos: i for i, v in enumerate(lat.dataqubits)}
    gone = sorted(removed)
    alive = True
    for q in gone:
        # A later removal may be refused depending on which representative of a logical
        # operator was kept, so the reference only follows the generators here.
        ref.logs = []
        ref.remove(q)
    degenerate = not ref.stabs or any(not s for s in ref.stabs.values()) or len(gone) == len(before)
    sh.count(transitions=len(gone))
    try:
        apply(code, **kw)
    except lb.NoLogicalOperatorError as e:
        # Refusing is right only if the operator to be rerouted has no stabiliser left
        # after the removals before it.
        ref = Ref(C.make(fam, d, 2).lattice)
        ref.logs = []
        for q in gone:
            if q == e.data.pos:
                break
            ref.remove(q)
        sh.check(e.data.pos in removed and not any((e.data.pos, e.pauli.name) in s for s in ref.stabs.values()),
                 "removal:refused", f"refused ({e}) although a stabiliser is available", case)
        unchanged(sh, code, C.make(fam, d, 2), case)
        sh.count(refused=1)
        return None
    except IndexError:
        if degenerate:
            return None
        raise
    lat = code.lattice
    if degenerate:
        return None
    sh.count(states=1)
    sh.case(case)
    sh.check({v.pos for v in lat.dataqubits} == set(before) - set(gone) and all(before[v.pos] is v for v in lat.dataqubits),
             "removal:qubits", f"data qubits left: {[v.pos for v in lat.dataqubits]}", case)
    structure(sh, code, case)
    stabs, logs = ops_of(code)
    n = len(lat.dataqubits)
    sh.check(valid(stabs, logs, n, False), "removal:valid", "the edited code is not a valid stabiliser code", case)
    got = sorted(map(sorted, (factors(v) for v in lat.stabgens)))
    want = sorted(map(sorted, ref.stabs.values()))
    sh.check(got == want, "removal:generators", f"generators {got}, expected {want}", case)
    # Logical operators and generators descend from the original ones: restricted to the
    # remaining qubits they are products of original operators.
    index = {v.pos: i for i, v in enumerate(lat.dataqubits)}
    keep = lambda f: frozenset(x for x in f if x[0] in index)
    basis = C.reduce_basis(C.vec(mask(keep(s), index), n) for s in ref0.stabs.values())
    for v in lat.stabgens:
        sh.check(C.in_span(mask(factors(v), index), basis, n), "removal:descends", f"generator {v} is not a product of original ones", case)
    for v, old in zip(lat.logical_ops, ref0.logs):
        a, b = mask(factors(v), index), mask(keep(old), index)
        sh.check(C.in_span((a[0] ^ b[0], a[1] ^ b[1]), basis, n), "removal:logical",
                 f"logical operator {v.name} is no longer the original one", case)
    return code


def single(sh, item):
    fam, d = item
    lat = C.make(fam, d).lattice
    for v in lat.dataqubits:
        for form in ("index", "pos"):
            ref = v.equbit_idx if form == "index" else v.pos
            with sh.guard("single", (item, v.pos, form)):
                code = judge(sh, fam, d, [v.pos], (item, v.pos, form), faulty_qubits=[ref])
                sh.check(code is not None or d < 3 or fam not in ("planar",), "single:refused", f"cannot remove {v.pos}", (item, v.pos))


def sets(sh, item):
    fam, d, w, q = item
    lat = C.make(fam, d).lattice
    pos = [v.pos for v in lat.dataqubits]
    for k in range(2, w + 1):
        for rest in combinations(range(q + 1, len(pos)), k - 1):
            idx = (q, *rest)
            case = (fam, d, idx)
            with sh.guard("sets", case):
                judge(sh, fam, d, [pos[i] for i in idx], case, faulty_qubits=list(idx) if sum(idx) % 2 else [pos[i] for i in reversed(idx)])


def gates(sh, item):
    """Faulty gates and stabilisers stand for the data qubits they touch."""
    fam, d = item
    lat = C.make(fam, d).lattice
    for v in lat.stabgens:
        nb = [e.data for e in v.edges]
        case = (item, v.pos)
        with sh.guard("gates", case):
            judge(sh, fam, d, {x.pos for x in nb}, (case, "stab"), faulty_stabilizers=[v.equbit_idx])
            judge(sh, fam, d, {x.pos for x in nb}, (case, "stab-pos"), faulty_stabilizers=[v.pos])
        for x in nb:
            for a in (v.equbit_idx, v.pos):
                for b in (x.equbit_idx, x.pos):
                    with sh.guard("gates", (case, x.pos)):
                        judge(sh, fam, d, {x.pos}, (case, "gate", a, b), faulty_gates=[(a, b)])
            # all three ways at once, naming the same qubit twice
            other = lat.dataqubits[(x.dataqubit_idx + 1) % len(lat.dataqubits)]
            with sh.guard("gates", (case, x.pos, "mix")):
                judge(sh, fam, d, {x.pos, other.pos}, (case, "mix", x.pos), faulty_gates=[(v.pos, x.equbit_idx)], faulty_qubits=[x.pos, other.equbit_idx])


def refused(sh, item):
    """Requests that do not name what they should are refused and change nothing."""
    fam, d = item
    base = C.make(fam, d)
    lat = base.lattice
    dq, sg, lo = lat.dataqubits, lat.stabgens, lat.logical_ops
    bad = [dict(faulty_qubits=[v.pos]) for v in (*sg, *lo)] + [dict(faulty_qubits=[v.equbit_idx]) for v in (*sg, *lo)]
    bad += [dict(faulty_stabilizers=[v.pos]) for v in (*dq, *lo)] + [dict(faulty_stabilizers=[v.equbit_idx]) for v in (*dq, *lo)]
    bad += [dict(faulty_gates=[(s.pos, q.pos)]) for s in sg for q in dq if q not in s.neighbours]
    bad += [dict(faulty_gates=[(s.equbit_idx, q.equbit_idx)]) for s in (*dq, *lo) for q in dq if s is not q]
    bad += [dict(faulty_gates=[(s.equbit_idx, q.equbit_idx)]) for s in sg for q in (*sg, *lo)]
    bad += [dict(faulty_qubits=[dq[0].pos, sg[0].pos]), dict(faulty_qubits=[dq[0].pos], faulty_gates=[(sg[0].pos, sg[1].pos)])]
    for kw in bad:
        code = C.make(fam, d)
        sh.count(transitions=1)
        try:
            apply(code, **kw)
            sh.fail("refused:accepted", f"{kw} accepted", kw)
        except ValueError:
            pass
        unchanged(sh, code, base, (item, kw))
    sh.case(item)


def steps(sh, item):
    """Removing qubits one call after the other (in any order) keeps the code valid."""
    fam, d = item
    pos = [v.pos for v in C.make(fam, d).lattice.dataqubits]
    for a, b in permutations(pos, 2):
        case = (item, a, b)
        with sh.guard("steps", case):
            code = C.make(fam, d, 2)
            ref = Ref(code.lattice)
            ref.logs = []
            ok = True
            for q in (a, b):
                ref.remove(q)
                if not ref.stabs or any(not s for s in ref.stabs.values()):
                    ok = False
                    break
                try:
                    apply(code, faulty_qubits=[q])
                except lb.NoLogicalOperatorError:
                    ok = False
                    break
                sh.count(transitions=1)
                stabs, logs = ops_of(code)
                sh.check(valid(stabs, logs, code.n_data_qubits, False), "steps:valid", "invalid code", case)
                structure(sh, code, case)
            if ok:
                sh.count(states=1)
                sh.case(case)
                sh.check(sorted(map(sorted, (factors(v) for v in code.lattice.stabgens))) == sorted(map(sorted, ref.stabs.values())),
                         "steps:generators", "generators", case)


def named(sh, item):
    """After one removal, everything that is left can be named in every way for the next one."""
    fam, d, a = item
    make = lambda: C.make(fam, d, 2)

    def first():
        code = make()
        try:
            apply(code, faulty_qubits=[a])
        except lb.NoLogicalOperatorError:
            return None
        return code

    base = first()
    if base is None:
        return
    lat = base.lattice
    calls = []
    for s in lat.stabgens:
        nb = [e.data for e in s.edges]
        calls += [({x.pos for x in nb}, dict(faulty_stabilizers=[ref])) for ref in (s.pos, s.equbit_idx)]
        calls += [({x.pos}, dict(faulty_gates=[(i, j)])) for x in nb for i in (s.pos, s.equbit_idx) for j in (x.pos, x.equbit_idx)]
    calls += [({x.pos}, dict(faulty_qubits=[ref])) for x in lat.dataqubits for ref in (x.pos, x.equbit_idx)]
    for gone, kw in calls:
        case = (item, kw)
        ref = Ref(lat)
        ref.logs = []
        for q in sorted(gone):
            ref.remove(q)
        if not ref.stabs or any(not s for s in ref.stabs.values()):
            continue
        with sh.guard("named", case):
            code = first()
            sh.count(transitions=2)
            before = {v.pos for v in code.lattice.dataqubits}
            try:
                apply(code, **kw)
            except lb.NoLogicalOperatorError:
                sh.count(refused=1)
                unchanged(sh, code, base, case)
                continue
            sh.count(states=1)
            sh.case(case)
            got = sorted(map(sorted, (factors(v) for v in code.lattice.stabgens)))
            sh.check({v.pos for v in code.lattice.dataqubits} == before - gone and got == sorted(map(sorted, ref.stabs.values())), "named:removed",
                     f"{kw} after removing {a}: generators {got}, expected {sorted(map(sorted, ref.stabs.values()))}", case)
            structure(sh, code, case)
    for kw in [dict(faulty_gates=[(s.pos, x.pos)]) for s in lat.stabgens for x in lat.dataqubits if x not in s.neighbours] + [dict(faulty_qubits=[len(lat.equbits)])]:
        code = first()
        try:
            apply(code, **kw)
            sh.fail("named:refused", f"{kw} accepted after removing {a}", (item, kw))
        except (ValueError, IndexError):
            sh.count(refused=1)


def followers(stabs, q, keep, join):
    """All generator sets that the documented modes allow after removing q."""
    groups = {}
    for pos, s in stabs.items():
        for p, letter in s:
            if p == q:
                groups.setdefault(letter, []).append(pos)
    full = all(len(g) == 2 for g in groups.values())
    merged_choices = [set(groups)] if full and keep == "none" else [set()] if full and keep == "all" else [{g} for g in groups] if full else [None]
    for merged in merged_choices:
        new = dict(stabs)
        for letter, g in groups.items():
            if merged is not None:
                merge, drop = letter in merged, False
            else:
                merge, drop = join and len(g) == 2, not join and len(g) == 1
            if merge:
                new[g[0]] = new[g[0]] ^ new[g[1]]
                del new[g[1]]
            elif drop:
                del new[g[0]]
            else:
                for pos in g:
                    new[pos] = frozenset(x for x in new[pos] if x[0] != q)
        yield new


def modes(sh, item):
    """Keeping gauge operators and joining generators at the boundary, as documented; only for the code they are requested for."""
    fam, d, a = item
    n = C.PARAMS[fam](d)[0]
    plain = C.make(fam, d, 2)
    for keep, join in ((k, j) for k in (None, "none", "half", "all") for j in (None, False, True)):
        for sets in [(a,)] + [(a, b) for b in range(a + 1, n) if d < 4]:
            for split in (False, True) if len(sets) > 1 else (False,):
                case = (item, keep, join, sets, split)
                kw = {k: v for k, v in (("keep_gauge", keep), ("boundary_join", join)) if v is not None}
                code = C.make(fam, d, 2)
                lat = code.lattice
                pos = [lat.dataqubits[i].pos for i in sets]
                options = [Ref(lat).stabs]
                for q in sorted(pos) if not split else pos:
                    options = [o for s in options for o in followers(s, q, keep or "none", bool(join))]
                if any(not o or any(not s for s in o.values()) for o in options):
                    continue
                rows = [[mask(s, {v.pos: i for i, v in enumerate(lat.dataqubits)}) for s in o.values()] for o in options]
                clash = any(C.anti(x, y) for o in rows for x in o for y in o)
                with sh.guard("modes", case):
                    sh.count(transitions=len(sets))
                    try:
                        if split:
                            apply(code, faulty_qubits=[pos[0]], **kw)
                            apply(code, faulty_qubits=[pos[1]])  # the modes stay as they were set
                        else:
                            apply(code, faulty_qubits=pos, **kw)
                    except lb.NoLogicalOperatorError:
                        sh.count(refused=1)
                        if not split:
                            unchanged(sh, code, plain, case)
                        continue
                    except ValueError:
                        if not clash:
                            raise
                        sh.count(refused=1)  # generators that do not commute
                        continue
                    sh.count(states=1)
                    sh.case(case)
                    got = sorted(map(sorted, (factors(v) for v in code.lattice.stabgens)))
                    want = [sorted(map(sorted, o.values())) for o in options]
                    sh.check(got in want, "modes:generators", f"generators {got}, expected {want[0]}", case)
                    if keep != "all" and not clash:
                        structure(sh, code, case)
                        stabs, logs = ops_of(code)
                        sh.check(all(not C.anti(x, y) for x in stabs for y in (*stabs, *logs)), "modes:commute", "generators and logical operators do not commute", case)
    again = C.make(fam, d, 2)
    sh.check(again.lattice.fabrication_err_keep_gauge == "none" and again.lattice.fabrication_err_boundary_join is False and ops_of(again) == ops_of(plain),
             "modes:leak", "modes requested for one code changed another", item)
    ref = Ref(again.lattice)
    q = again.lattice.dataqubits[a].pos
    ref.logs = []
    ref.remove(q)
    if ref.stabs and all(ref.stabs.values()):
        try:
            apply(again, faulty_qubits=[a])
        except lb.NoLogicalOperatorError:
            return
        sh.check(sorted(map(sorted, (factors(v) for v in again.lattice.stabgens))) == sorted(map(sorted, ref.stabs.values())), "modes:leak",
                 "modes requested for one code are used for another", item)


def lowlevel(sh, item):
    """create_superstab, multiply_logical_with_stab, remove_stabilizer, remove_edge/vertex."""
    fam, d = item
    m = len(C.make(fam, d).lattice.stabgens)
    letters = lambda f: {p: x for p, x in f}
    for i in range(m):
        for j in range(m):
            if i == j:
                continue
            lat = C.make(fam, d).lattice
            a, b = lat.stabgens[i], lat.stabgens[j]
            fa, fb = factors(a), factors(b)
            if any(letters(fa).get(p, x) != x for p, x in fb):
                continue  # products with a different letter on a common qubit are not supported
            others = {v.pos: factors(v) for v in (*lat.stabgens, *lat.logical_ops) if v is not a and v is not b}
            lat.create_superstab(a, b)
            sh.count(transitions=1)
            sh.check(factors(a) == fa ^ fb and b not in lat.stabgens and len(lat.stabgens) == m - 1 and lat.lattice[b.pos] is None
                     and {v.pos: factors(v) for v in (*lat.stabgens, *lat.logical_ops) if v is not a} == others,
                     "lowlevel:superstab", f"superstab of {a} and {b}", (item, i, j))
            lat.assign_indices()
            sh.check([v.equbit_idx for v in lat.equbits] == list(range(len(lat.equbits))) and len(lat.equbits) == len(lat.vertices),
                     "lowlevel:indices", "indices after an edit", (item, i, j))
            sh.case((item, "super", i, j))
        lat = C.make(fam, d).lattice
        s = lat.stabgens[i]
        try:
            lat.remove_vertex(s)
            sh.fail("lowlevel:connected", "a connected vertex was removed", (item, i))
        except ValueError:
            pass
        others = [factors(v) for v in lat.stabgens if v is not s]
        lat.remove_stabilizer(s)
        sh.check(s not in lat.stabgens and s not in lat.vertices and s not in lat.equbits and [factors(v) for v in lat.stabgens] == others
                 and all(s is not w for q in lat.dataqubits for w in q.neighbours), "lowlevel:remove-stab", f"{s}", (item, i))
        sh.count(transitions=2)
        for k in range(len(C.make(fam, d).lattice.logical_ops)):
            lat = C.make(fam, d).lattice
            lo, s = lat.logical_ops[k], lat.stabgens[i]
            fl, fs = factors(lo), factors(s)
            if any(letters(fl).get(p, x) != x for p, x in fs):
                continue
            lat.multiply_logical_with_stab(lo, s)
            sh.count(transitions=1)
            sh.check(factors(lo) == fl ^ fs and factors(s) == fs, "lowlevel:logical-times-stab", f"{lo} * {s}", (item, i, k))
    sh.count(states=m)


def circuits(sh, item):
    """Circuits generated for edited planar codes measure the edited stabilisers."""
    fam, d, q, t = item
    n = C.PARAMS[fam](d)[0]
    cases = [(q,)] + [(q, p) for p in range(q + 1, n) if d <= 3 or t or (q + p) % 5 == 0]
    for idx in cases:
        code = C.make(fam, d, 2)
        try:
            apply(code, faulty_qubits=list(idx))
        except (lb.NoLogicalOperatorError, IndexError):
            continue
        for la in (True, False):
            for lo in "XZ":
                case = (item, idx, la, lo)
                with sh.guard("circuits", case):
                    circ = generate_qec_circuit(code, {}, {}, lo, la)
                    qec.quiet(sh, code, circ.gates, lo, la, "circuits", case)
                    sh.case(case)
        sh.count(states=1)


def finish(n, tier):
    assert n["refused"] > 20 and n["states"] > 500, n
    return {}
