"""P10: predefined and user-defined codes are valid codes with the promised parameters."""
from itertools import permutations, product

import numpy as np

from plaquette.codes import LatticeCode, StabilizerCode
from plaquette.codes import latticebase as lb
from plaquette.pauli import pauli_to_string, string_to_pauli

from .. import codes as C

LEVEL = "model_checking"
RULE = ("state = a code (family and size, or an explicit list of generators and logical operators); every family up to the "
        "stated size with every error below the distance, every edge order, and every single and double replacement of an operator; "
        "non-trivial = distinct code or distinct validity question")
ASSUMPTIONS = ["reference: symplectic algebra on integers (mc/codes.py)", "sizes below 2 (3 for the repetition code) are not claimed"]
CHUNK = 1


# More than 100 qubits, more than 64 and 128 generators
BIG = [("repetition", 101), ("repetition", 131), ("planar", 8), ("rotated", 11), ("xzzx", 11), ("toric", 8)]


def plan(tier):
    t = tier == "thorough"
    items = [("family", (f, d)) for f, d in C.sized("thorough") + BIG]
    items += [("orders", (f, d)) for f in C.LATTICE for d in (2, 3, 4, 5, 6)]
    items += [("hooks", (f, d)) for f, d in [("rotated", 2), ("rotated", 3), ("rotated", 4), ("rotated", 5), ("xzzx", 2), ("xzzx", 3), ("xzzx", 4), ("xzzx", 5), ("planar", 2), ("planar", 3), ("planar", 4), ("toric", 2), ("toric", 3), ("toric", 4)]]
    items += [("hooks", (f, 6)) for f in ("rotated", "xzzx")] * t
    items += [("dist", (f, d, t)) for f, d in C.sized(tier)]
    items += [("queries", (f, d)) for f, d in C.sized("quick") if d <= 4 or f in ("five", "shor")]
    items += [("check2", (s, t)) for s in range(1, 16)]
    items += [("mutants", (b, i, t)) for b in range(len(BASES)) for i in range(len(BASES[b][0]) + len(BASES[b][1]))]
    items += [("rejects_odd", 0), ("equality", 0)] + [("named", k) for k in (1, 2, 6, 12)]
    return items


def ops_of(code):
    return [C.op(s) for s in code.stabilisers], [C.op(s) for s in code.logical_ops]


def valid(stabs, logs, n, rank):
    k = len(logs) // 2
    return (all(not C.anti(a, b) for a in stabs for b in stabs)
            and all(not C.anti(a, b) for a in stabs for b in logs)
            and all(C.anti(logs[i], logs[j]) == (i // 2 == j // 2 and i != j) for i in range(2 * k) for j in range(2 * k))
            and (not rank or C.rank(stabs, n) == n - k))


def structure(sh, code, case):
    """The lattice behind a code is coherent and describes the same operators."""
    lat = code.lattice
    n = len(lat.dataqubits)
    sh.check(lat.equbits == [*lat.dataqubits, *lat.stabgens, *lat.logical_ops], "structure:equbit-order",
             "equbits are not data qubits, stabilisers, logical operators in order", case)
    for i, v in enumerate(lat.equbits):
        sh.check(v.equbit_idx == i, "structure:equbit-index", f"{v} has index {i}", case)
    for name, vs in (("dataqubit_idx", lat.dataqubits), ("stabgen_idx", lat.stabgens), ("logical_idx", lat.logical_ops)):
        for i, v in enumerate(vs):
            sh.check(getattr(v, name) == i, f"structure:{name}", f"{v} is number {i}", case)
    allv = list(lat.dataqubits) + list(lat.stabgens) + list(lat.logical_ops)
    sh.check(len(lat.vertices) == len(allv) and all(any(v is w for w in lat.vertices) for v in allv),
             "structure:vertices", "vertex list differs from qubits and operators", case)
    occupied = [v for v in lat.lattice.ravel() if v is not None]
    sh.check(len(occupied) == len(allv) and all(lat.lattice[v.pos] is v for v in allv),
             "structure:positions", "lattice positions do not match the vertices", case)
    ids = {id(e) for e in lat.edges}
    sh.check(len(ids) == len(lat.edges) and ids == {id(e) for v in lat.dataqubits for e in v.edges}
             == {id(e) for v in (*lat.stabgens, *lat.logical_ops) for e in v.edges},
             "structure:edges", "edge lists of lattice, qubits and operators differ", case)
    for v in allv:
        other = [(e.op if v in lat.dataqubits else e.data) for e in v.edges]
        sh.check(all((e.data if isinstance(v, lb.DataVertex) else e.op) is v for e in v.edges), "structure:edge-end",
                 f"an edge of {v} does not end there", case)
        other = [(e.op if isinstance(v, lb.DataVertex) else e.data) for e in v.edges]
        sh.check(len(other) == len(v.neighbours) and {id(o) for o in other} == {id(o) for o in v.neighbours}
                 and len({id(o) for o in other}) == len(other), "structure:neighbours", f"neighbours of {v}", case)
    stabs, logs = ops_of(code)
    sh.check([C.vertex_op(v) for v in lat.stabgens] == stabs, "structure:stabilisers",
             "stabilisers differ from the lattice edges", case)
    sh.check([C.vertex_op(v) for v in lat.logical_ops] == logs, "structure:logicals",
             "logical operators differ from the lattice edges", case)
    sh.check(code.n_data_qubits == n and code.n_stabgens == len(stabs) and code.n_logical_ops == len(logs)
             and code.n_logical_qubits == len(logs) // 2 and code.n_ext_qubits == n + len(stabs) + len(logs),
             "structure:counts", "reported counts", case)
    sh.check([C.op(s) for s in code.logical_x] == logs[::2] and [C.op(s) for s in code.logical_z] == logs[1::2],
             "structure:logical-split", "logical_x/logical_z", case)


def schedule(sh, lat, case):
    """Each step touches each qubit and each ancilla at most once."""
    if lat.n_time_steps is None:
        return
    for v in (*lat.dataqubits, *lat.stabgens):
        steps = [e.measurement_time_step for e in v.edges if isinstance(e.op, lb.StabGenVertex)]
        sh.check(all(isinstance(s, int) and 0 <= s < lat.n_time_steps for s in steps) and len(set(steps)) == len(steps),
                 "schedule:conflict", f"{v} is used at steps {steps}", case)


def family(sh, item):
    fam, d = item
    code = C.make(fam, d, 3)
    n, m, k, *_ = C.PARAMS[fam](d)
    stabs, logs = ops_of(code)
    sh.case(("family", item))
    sh.count(states=1, transitions=len(stabs) ** 2)
    sh.check((code.n_data_qubits, len(stabs), len(logs)) == (n, m, 2 * k), "family:parameters",
             f"{fam} {d}: [[{code.n_data_qubits}, {len(logs) // 2}]] with {len(stabs)} generators, expected [[{n}, {k}]], {m}", item)
    sh.check(code.n_rounds == 3, "family:rounds", "n_rounds", item)
    sh.check(valid(stabs, logs, n, True), "family:valid", f"{fam} {d} is not a valid stabiliser code", item)
    sh.check(all(C.weight(o) for o in stabs + logs), "family:weight", "identity operator", item)
    sh.check(all(s[-1] == 0 for s in (*code.stabilisers, *code.logical_ops)), "family:sign", "signed operator", item)
    with sh.guard("family:check", item):
        code.check(rank=True)
    structure(sh, code, item)
    schedule(sh, code.lattice, item)
    # Logical operators of the requested kind have the weight a distance-d code needs.
    px, pz = C.PARAMS[fam](d)[3:5]
    if px and fam not in ("shor",):
        sh.check(all(C.weight(o) == px and not o[1] for o in logs[::2]), "family:logical-x",
                 f"logical X has weights {[C.weight(o) for o in logs[::2]]}, expected {px}", item)
        sh.check(all(C.weight(o) == pz and not o[0] for o in logs[1::2]), "family:logical-z",
                 f"logical Z has weights {[C.weight(o) for o in logs[1::2]]}, expected {pz}", item)
    # Generators of different groups are never flipped by the same X (or Z) error: a
    # group is a union of connected components of the matching graph.
    groups = [v.group for v in code.lattice.stabgens]
    if fam in ("planar", "rotated", "toric", "repetition"):
        sm = C.syndrome_masks(stabs, n)
        for kind in "XZ":
            for q in range(n):
                g = {groups[i] for i in range(len(stabs)) if sm[kind][q] >> i & 1}
                sh.check(len(g) <= 1, "family:groups", f"{kind} on qubit {q} flips generators of groups {g}", item)
    # Built again from its operators alone, it is the same code.
    for again in (LatticeCode.from_operators(code.stabilisers, code.logical_ops, 3), StabilizerCode.from_codelattice(code.lattice)):
        s2, l2 = ops_of(again)
        sh.check((s2, l2) == (stabs, logs) and again == code, "family:from-operators", "rebuilt code differs", item)
    structure(sh, LatticeCode.from_operators(code.stabilisers, code.logical_ops, 3), item)


def orders(sh, item):
    """Every edge order the constructors accept gives a conflict-free schedule."""
    fam, d = item
    dirs = ((1, 1), (-1, 1), (1, -1), (-1, -1)) if fam in ("rotated", "xzzx") else ((0, 1), (-1, 0), (1, 0), (0, -1))
    base = C.make(fam, d)
    for order in permutations(dirs):
        with sh.guard("orders", (item, order)):
            lat = C.LATTICE[fam](d, edge_order=order)
            sh.count(transitions=1)
            sh.case(("order", item, order))
            opposite = order[1] == tuple(-a for a in order[2])
            if fam in ("planar", "toric") or opposite:
                # Rotated codes exchange the two middle steps on one kind of tile, which
                # only makes sense if they are opposite directions (as by default).
                schedule(sh, lat, (item, order))
            sh.check(lat.n_time_steps == 4, "orders:steps", "number of time steps", (item, order))
            if fam in ("planar", "toric"):
                # A later order with unused steps replaces the schedule, and the other way round
                before = [e.measurement_time_step for e in lat.edges]
                for k in range(5):
                    lat.assign_stab_edge_order(order[:k] + ((7, 7),) + order[k:])
                    sh.check(lat.n_time_steps == 5 and [e.measurement_time_step for e in lat.edges] == [t if t is None or t < k else t + 1 for t in before],
                             "orders:longer", "schedule with an unused step", (item, order, k))
                lat.assign_stab_edge_order(order)
                sh.check(lat.n_time_steps == 4 and [e.measurement_time_step for e in lat.edges] == before, "orders:again", "schedule assigned again", (item, order))
            sh.check(StabilizerCode.from_codelattice(lat) == base, "orders:code", "edge order changes the code", (item, order))
            if fam in ("planar", "toric"):
                size = lat.lattice.shape[0]
                for e in lat.edges:
                    if isinstance(e.op, lb.StabGenVertex):
                        delta = order[e.measurement_time_step]
                        got = tuple(a - b for a, b in zip(e.data.pos, e.op.pos))
                        per = 2 * d
                        ok = all((g - w) % per == 0 if fam == "toric" else g == w for g, w in zip(got, delta))
                        sh.check(ok, "orders:direction", f"edge {e.op.pos}->{e.data.pos} at step {e.measurement_time_step} of {order}", (item, order))


def hooks(sh, item):
    """In the default order, a fault of an ancilla that spreads to the rest of its data qubits costs no distance.

    Breadth-first over (syndrome, logical class): every combination of fewer than d single-qubit errors and spread
    ancilla faults is visited; none may be an undetected logical error.
    """
    fam, d = item
    code = C.make(fam, d)
    stabs, logs = ops_of(code)
    n = C.PARAMS[fam](d)[0]
    place = {id(v): i for i, v in enumerate(code.lattice.dataqubits)}

    def sig(o):
        return sum(C.anti(o, s) << i for i, s in enumerate(stabs)) << len(logs) | sum(C.anti(o, l) << i for i, l in enumerate(logs))
    gens = {sig(o) for q in range(n) for o in ((1 << q, 0), (0, 1 << q), (1 << q, 1 << q))}
    spread = 0
    for v in code.lattice.stabgens:
        edges = sorted(v.edges, key=lambda e: e.measurement_time_step)
        x = z = 0
        for e in reversed(edges):
            q = place[id(e.data)]
            x ^= (e.factor.name in "XY") << q
            z ^= (e.factor.name in "ZY") << q
            gens.add(sig((x, z)))
            spread += 1
    gens.discard(0)
    seen, layer = {0}, {0}
    for w in range(1, d):
        layer = {a ^ g for a in layer for g in gens} - seen
        seen |= layer
        sh.count(transitions=len(layer) * len(gens))
        bad = [a for a in layer if a < 1 << len(logs)]
        sh.case(("hooks", item, w))
        if not sh.check(not bad, "orders:hooks", f"{w} faults, some of them spreading from an ancilla, are an undetected logical error of {fam} {d}", (item, w)):
            break
        if w == d - 2:
            # The last layer need not be built: a logical error of weight d-1 is a syndrome-free sum.
            top = range(1 << len(logs))
            bad = [(a, g) for g in gens for a in (g ^ t for t in top if t) if a in layer]
            sh.case(("hooks", item, d - 1))
            sh.count(transitions=len(gens) * len(top))
            sh.check(not bad, "orders:hooks", f"{d - 1} faults, some of them spreading from an ancilla, are an undetected logical error of {fam} {d}", (item, d - 1))
            break
    sh.count(states=len(seen), spread=spread)


def dist(sh, item):
    fam, d, t = item
    code = C.make(fam, d)
    stabs, logs = ops_of(code)
    n, _, _, dx, dz, da = C.PARAMS[fam](d)
    jobs = []
    if dx:
        jobs += [("X", dx), ("Z", dz)]
    if n <= (41 if t else 16) or not dx:
        jobs += [("XYZ", da)]
    for kinds, want in jobs:
        import math
        cost = sum(math.comb(n, w) * len(kinds) ** w for w in range(1, want))
        if cost > (20_000_000 if t else 1_500_000):
            continue
        got, seen = C.distance(stabs, logs, n, kinds, want - 1)
        sh.count(transitions=seen, states=1)
        sh.case(("dist", item, kinds))
        sh.check(got is None, "dist:small", f"{fam} {d}: undetected {kinds} error of weight {got} acts on the logical qubits", item)
        # and the distance is attained by a logical operator (equivalent to a product of logicals)
        if kinds in "XZ" and fam != "shor":
            sh.check(min(C.weight(o) for o in logs if not (o[1] if kinds == "X" else o[0])) == want, "dist:attained",
                     f"no {kinds} logical operator of weight {want}", item)


def queries(sh, item):
    fam, d = item
    code = C.make(fam, d)
    lat = code.lattice
    k = code.n_logical_qubits
    nd, ns = len(lat.dataqubits), len(lat.stabgens)
    for length in range(4):
        for s in map("".join, product("XZYIx", repeat=length)):
            want = [2 * i + "XZ".index(c) for i, c in enumerate(s)] if set(s) <= {"X", "Z"} and len(s) == k else None
            ask(sh, code, s, want, item)
    for length in range(4):
        for idx in product(range(-1, 2 * k + 1), repeat=length):
            want = list(idx) if len(idx) == k and all(0 <= i < 2 * k for i in idx) else None
            ask(sh, code, list(idx), want, item)
    for i in [*range(-3, len(lat.equbits) + 3), "0", 0.0, None, (0,)]:
        isint = isinstance(i, int)
        for f, ok in ((lat.check_equbit_is_data, isint and 0 <= i < nd), (lat.check_equbit_is_stabgen, isint and nd <= i < nd + ns)):
            sh.count(transitions=1)
            try:
                f(i)
                got = True
            except ValueError:
                got = False
            sh.check(got == ok, f"queries:{f.__name__}", f"index {i!r}: accepted={got}, expected {ok}", item)
    shape = lat.lattice.shape
    for pos in product(range(shape[0] + 1), range(shape[1] + 1)):
        inside = pos[0] < shape[0] and pos[1] < shape[1]
        here = [v for v in lat.vertices if v.pos == pos]
        for allow in (True, False):
            sh.count(transitions=1)
            try:
                v = lat.get_vertex_at_pos(pos, allow_empty=allow)
                ok = inside and (v is here[0] if here else v is None and allow)
            except IndexError:
                ok = not inside
            except ValueError:
                ok = inside and not here and not allow
            sh.check(ok, "queries:get_vertex_at_pos", f"position {pos}, allow_empty={allow}", item)
    sh.case(("queries", item))


def ask(sh, code, arg, want, item):
    sh.count(transitions=1)
    try:
        got = list(code.logical_ops_to_indices(arg))
    except ValueError:
        got = None
    sh.check(got == want, "queries:logical-ops", f"logical_ops_to_indices({arg!r}) gives {got}, expected {want}", item)


def row(o, n):
    return np.array([o[0] >> q & 1 for q in range(n)] + [o[1] >> q & 1 for q in range(n)] + [0], dtype="u1")


def judge(sh, stabs, logs, n, case):
    for rank in (False, True):
        sh.count(transitions=1)
        code = StabilizerCode([row(o, n) for o in stabs], [row(o, n) for o in logs])
        try:
            code.check(rank=rank)
            got = True
        except AssertionError:
            got = False
        want = valid(stabs, logs, n, rank)
        sh.count(accepted=int(got))
        sh.check(got == want, f"check:{'accepts' if got else 'refuses'}{':rank' if rank else ''}",
                 f"check(rank={rank}) {'accepts' if got else 'refuses'} stabilisers {show(stabs, n)}, logicals {show(logs, n)}", case)
        if not want and not rank and not got:
            break


def show(ops, n):
    return [pauli_to_string(row(o, n)) for o in ops]


def all_ops(n):
    return [(x, z) for x in range(2 ** n) for z in range(2 ** n)]


def check2(sh, item):
    """check() on every one-generator code on two qubits."""
    s, t = item
    A = all_ops(2)
    for x in A:
        for z in A:
            judge(sh, [A[s]], [x, z], 2, (s, x, z))
            sh.case(("check2", s, x, z))
            sh.count(states=1)


BASES = [
    (["ZZI", "IZZ"], ["XXX", "IIZ"], 3),
    (["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"], ["XXXXX", "ZZZZZ"], 5),
    (["ZZZ"], ["XXI", "ZII", "IXX", "IIZ"], 3),
    (["XXXX", "ZZZZ"], ["XXII", "ZIZI", "XIXI", "ZZII"], 4),
    (["ZZI", "IZZ", "ZIZ"], ["XXX", "IIZ"], 3),
    (["ZZII"], ["XXXX", "IIIZ"], 4),
]


def parse(s):
    return C.op(string_to_pauli(s))


def mutants(sh, item):
    """Valid codes with every replacement of one operator, and of two (bounded)."""
    b, i, t = item
    ss, ls, n = BASES[b]
    base = [parse(s) for s in ss + ls]
    m = len(ss)
    judge(sh, base[:m], base[m:], n, item)
    A = all_ops(n)
    few = [o for o in A if C.weight(o) <= (2 if n <= 4 else 1)]
    for o in A:
        ops = list(base)
        ops[i] = o
        judge(sh, ops[:m], ops[m:], n, (item, o))
        sh.case(("mutant", item, o))
        sh.count(states=1)
        if n == 3 or (t and n == 4):
            for j in range(i + 1, len(base)):
                for o2 in few:
                    ops2 = list(ops)
                    ops2[j] = o2
                    judge(sh, ops2[:m], ops2[m:], n, (item, o, j, o2))


def rejects_odd(sh, item):
    for size in (2, 4, 6, 8):
        try:
            C.make("repetition", size)
            sh.fail("rejects:even-repetition", f"an even repetition code ({size}) is accepted", size)
        except ValueError:
            pass
    bad = [
        ([], ["XX", "ZI"], TypeError), ([["ZZ"], ["XX"]], None, AssertionError), ([["ZZ"], ["XXX", "ZII"]], None, AssertionError),
    ]
    for args, _, exc in bad[1:]:
        try:
            StabilizerCode([string_to_pauli(s) for s in args[0]], [string_to_pauli(s) for s in args[1]])
            sh.fail("rejects:shape", f"accepted {args}", args)
        except AssertionError:
            pass
    for kw in ({}, dict(n_data_qubits=2), dict(n_data_qubits=2, def_stabgens=["ZZ"])):
        try:
            lb.CodeLatticeFromStab(**kw)
            sh.fail("rejects:missing", f"accepted {kw}", kw)
        except TypeError:
            pass
    for kw in (dict(n_data_qubits=2, def_stabgens=["ZZZ"], def_logical_ops=["XX", "ZI"]),
               dict(n_data_qubits=2, def_stabgens=["ZZ"], def_logical_ops=["XX", "Z"])):
        try:
            lb.CodeLatticeFromStab(**kw)
            sh.fail("rejects:length", f"accepted {kw}", kw)
        except AssertionError:
            pass
    # Signs of user-defined operators are ignored, letters are kept.
    for s in map("".join, product("IXYZ", repeat=3)):
        for sign in ("", "+", "-"):
            lat = lb.CodeLatticeFromStab(3, [sign + s, "ZZI"], ["XXX", "IIZ"])
            sh.count(transitions=1)
            sh.check(C.vertex_op(lat.stabgens[0]) == parse(s) and (s == "III" or C.op(lat.stabilisers[0]) == parse(s)),
                     "rejects:letters", f"{sign + s} is misread", s)
    sh.case("rejects")
    sh.count(states=1)


def named(sh, k):
    """Logical operators of a code with k logical qubits: names and order."""
    n = k + 1
    one = lambda letter, q: "I" * q + letter + "I" * (n - q - 1)
    lat = lb.CodeLatticeFromStab(n, [one("Z", 0)], [one(x, q) for q in range(1, n) for x in "XZ"])
    sh.case(("named", k))
    sh.count(states=1)
    sh.check([v.name for v in lat.logical_ops] == [f"{x}{i}" for i in range(k) for x in "XZ"], "named:names", f"names {[v.name for v in lat.logical_ops]}", k)
    code = LatticeCode(lat, 1)
    stabs, logs = ops_of(code)
    sh.check(stabs == [(0, 1)] and logs == [(1 << q, 0) if x == "X" else (0, 1 << q) for q in range(1, n) for x in "XZ"], "named:operators", f"{stabs} {logs}", k)


def equality(sh, item):
    """Codes are equal exactly if their operators are, whatever the sizes."""
    codes = []
    for ss, ls, n in BASES:
        codes.append((ss, ls, n))
        codes.append((ss[:-1] or ss, ls, n))
        codes.append((ss, ls[:2], n))
        codes.append((ss[::-1], ls, n))
        codes.append((ss, ls[::-1], n))
        codes.append((ss + ss[:1], ls, n))
    objs = []
    for ss, ls, n in codes:
        objs.append((ss, ls, StabilizerCode([string_to_pauli(s) for s in ss], [string_to_pauli(s) for s in ls])))
        objs.append((ss, ls, LatticeCode.from_operators([string_to_pauli(s) for s in ss], [string_to_pauli(s) for s in ls], 2)))
    for a in objs:
        for b in objs:
            with sh.guard("equality", (a[:2], b[:2])):
                want = a[0] == b[0] and a[1] == b[1]
                sh.count(transitions=1)
                sh.check((a[2] == b[2]) is want and (a[2] != b[2]) is not want, "equality",
                         f"{a[:2]} == {b[:2]} gives {a[2] == b[2]}", (a[:2], b[:2]))
    for other in (None, 0, "code", [1]):
        sh.check((objs[0][2] == other) is False, "equality:foreign", f"== {other!r}", other)
    sh.case("equality")


def finish(n, tier):
    assert n["accepted"] > 100, n
    return {}
