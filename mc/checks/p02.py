"""P02: measuring and resetting follow the projection postulate."""
from itertools import permutations, product

import numpy as np

from plaquette import pauli as P
from plaquette.device import QuantumState

from .. import dense as D
from .. import tab as T
from .. import wide as W
from ..choice import distribution, same_distribution

LEVEL = "model_checking"
RULE = ("state = tableau; transition = one measurement/reset call with one resolution of its random "
        "choices; every Pauli operator with both signs on every reachable tableau (n<=2) and on every "
        "stabiliser state (n=3); non-trivial = the state or the outcome distribution is not the "
        "trivial one (outcome 0 with certainty)")
ASSUMPTIONS = [
    "reference: projectors on dense density matrices",
    "resets are compared as channels (averaged density matrix), so any unravelling is accepted",
]
CHUNK = 1


def plan(tier):
    t = tier == "thorough"
    items = [("paulis", (1, "all", 0, 1))]
    items += [("paulis", (2, "all" if t else "allq", i, 64)) for i in range(64)]
    items += [("paulis", (3, "deep" if t else "states", i, 32)) for i in range(32)]
    items += [("bases", (n, i, 16, t)) for n in (1, 2, 3) for i in range(16)]
    items += [("three", (k, targets)) for k in range(len(THREE)) for targets in permutations(range(4), 3)]
    items += [("forms", (n, i, 8)) for n in (1, 2, 3) for i in range(8)]
    items += [("resets", (n, i, 16, t)) for n in (1, 2, 3) for i in range(16)]
    items += [("large", (n, t, fam)) for n in (5, 4) for fam in range(3)]
    items += [("errors", ())]
    items += [("dense", n) for n in (34, 102, 104, 106, 108) + ((98, 100, 110, 112, 130, 258, 262) if t else ())]
    items += [("wide", (n, f, t)) for n in W.SIZES[:5 if t else 4] for f in W.FAMILIES]
    return items


def tableaux(n, kind):
    if kind in ("all", "allq"):
        return list(T.closure(n))
    if kind == "deep":
        return list(dict.fromkeys(T.states(n) + list(T.closure(n, depth=4))))
    return T.states(n)


def proj(rho, row, m):
    d = len(rho)
    p = (np.eye(d) + (-1) ** m * D.pauli(row)) / 2
    r = p @ rho @ p
    t = np.trace(r).real
    return t, (r / t if t > 1e-9 else None)


_ref = {}


def ref_measure(tab, row):
    """{(m, state key): probability} by projection; also which outcomes are possible."""
    n = len(tab) // 2
    k = (T.stab_key(tab), row)
    if k not in _ref:
        rho = D.rho_of_rows(tab[n:])
        out = {}
        for m in (0, 1):
            p, r = proj(rho, row, m)
            if p > 1e-9:
                out[(m, D.key(r))] = p
        _ref[k] = out
    return _ref[k]


def paulis(sh, item):
    n, kind, part, parts = item
    rows = D.all_rows(n)
    for tab in tableaux(n, kind)[part::parts]:
        sh.count(states=1)
        for row in rows:
            if not any(row[:-1]) and row[-1]:
                continue  # "-I" is not a measurable observable
            case = ([D.show(r) for r in tab], D.show(row))
            want = ref_measure(tab, row)
            seen = []

            def run():
                a, m = P.measure(T.arr(tab), T.arr(row))
                seen.append(np.array(a))
                t = D.tuples(a)
                return int(m), T.stab_key(t) if len(t) == 2 * n else None

            with sh.guard("measure", case):
                got, k = distribution(run)
                sh.count(transitions=k, traces_validated_against_impl=k)
                sh.case((tab, row), nontrivial=len(want) > 1 or (0, T.stab_key(tab)) not in want)
                sh.check(same_distribution(got, want), "measure",
                         lambda: f"outcomes/states {brief(got)}, want {brief(want)}", case)
                for a in seen:
                    sh.check(D.invariant(a) == "", "measure:tableau",
                             lambda: f"tableau after measurement invalid: {D.invariant(a)}", case)
            if part == 0 and tab[0][0] == 0:
                sh.sample(f"measure {case[1]} on {case[0][n:]}: {brief(want)}")
            for f in (0, 1):
                if kind == "allq" and (row[-1] or len(want) == 1):
                    continue  # quick tier: forcing with positive signs, random outcomes
                with sh.guard("measure:forced", case + (f,)):
                    def runf():
                        a, m = P.measure(T.arr(tab), T.arr(row), forced_outcome=f)
                        return int(m), T.stab_key(D.tuples(a))
                    got, k = distribution(runf)
                    sh.count(transitions=k, traces_validated_against_impl=k)
                    w = {x: 1.0 for x in want if len(want) == 1 or x[0] == f}
                    sh.check(same_distribution(got, w), "measure:forced",
                             lambda: f"forced {f}: {brief(got)}, want {brief(w)}", case)
            if part % 8 == 0:
                with sh.guard("measure:string", case):
                    got, _ = distribution(lambda: (
                        lambda r: (int(r[1]), T.stab_key(D.tuples(r[0]))))(
                            P.measure(T.arr(tab), D.show(row))))
                    sh.check(same_distribution(got, want), "measure:string",
                             lambda: f"operator given as a string: {brief(got)} want {brief(want)}", case)


def brief(d):
    return {(k[:-1] if isinstance(k, tuple) else hash(k) % 1000): round(v, 4) for k, v in d.items()} \
        if d else {}


def reduced(rho, drop, n):
    """Trace out the qubits in ``drop``."""
    keep = [q for q in range(n) if q not in drop]
    t = rho.reshape([2] * (2 * n))
    perm = keep + list(drop) + [n + q for q in keep] + [n + q for q in drop]
    t = t.transpose(perm).reshape(2 ** len(keep), 2 ** len(drop), 2 ** len(keep), 2 ** len(drop))
    return np.einsum("abcb->ac", t)


def single(base, q, n):
    row = [0] * (2 * n + 1)
    if base in "XY":
        row[q] = 1
    if base in "ZY":
        row[n + q] = 1
    return tuple(row)


def ref_bases(tab, base, targets, destructive, forced):
    n = len(tab) // 2
    branches = [(1.0, {}, D.rho_of_rows(tab[n:]))]
    for q, f in zip(targets, forced):
        nb = []
        for p, res, rho in branches:
            opts = [(m, *proj(rho, single(base, q, n), m)) for m in (0, 1)]
            opts = [o for o in opts if o[1] > 1e-9]
            if len(opts) == 2 and f is not None:
                opts = [(m, 1.0, r) for m, _, r in opts if m == f]
            for m, pm, r in opts:
                nb.append((p * pm, {**res, q: m}, r))
        branches = nb
    out = {}
    for p, res, rho in branches:
        r = reduced(rho, list(targets), n) if destructive else rho
        k = (tuple(res[q] for q in targets), D.key(r))
        out[k] = out.get(k, 0) + p
    return out


def bases(sh, item):
    n, part, parts, thorough = item
    tabs = tableaux(n, "all" if n == 1 else "states")
    if n == 2:  # several destabiliser completions of each state
        tabs = list(T.closure(2))[:: 1 if thorough else 12] + tabs
    if n == 3 and not thorough:
        tabs = tabs[::2]
    for tab in tabs[part::parts]:
        sh.count(states=1)
        for base, f in (("Z", P.measure_z_base), ("X", P.measure_x_base)):
            for k in range(1, n + 1):
                for targets in permutations(range(n), k):
                    for destructive in (False, True):
                        if destructive and k == n:
                            continue
                        opts = [None] + ([tuple(x) for x in product((None, 0, 1), repeat=k)]
                                         if k < 3 and (thorough or part % 4 == 0) else [])
                        for forced in opts:
                            one_base(sh, n, tab, base, f, targets, destructive, forced)


def one_base(sh, n, tab, base, f, targets, destructive, forced, give=None, give_forced=None):
    case = ([D.show(r) for r in tab], base, targets, destructive, forced, *([repr(give), repr(give_forced)] if give is not None or give_forced is not None else []))
    # In sequence order does not matter for the joint distribution, except for *forced*
    # values: forcing is only meaningful where the outcome is random at that moment, so
    # the reference accepts any processing order.
    k = len(targets)
    fo = forced if forced is not None else (None,) * k
    wants = []
    orders = permutations(range(k)) if forced is not None else [tuple(range(k))]
    for order in orders:
        w = ref_bases(tab, base, [targets[i] for i in order], destructive, [fo[i] for i in order])
        inv = np.argsort(order)
        wants.append({(tuple(key[0][i] for i in inv), key[1]): p for key, p in w.items()})

    def run():
        kw = {}
        if forced is not None:
            kw["forced_outcomes"] = give_forced if give_forced is not None else list(forced) if k > 1 else forced[0]
        a, m = f(T.arr(tab), give if give is not None else targets[0] if k == 1 else list(targets), destructive=destructive, **kw)
        left = n - (k if destructive else 0)
        a = np.asarray(a)
        assert_shape(a, left)
        complaint = "" if destructive and weak_ok(a) else D.invariant(a)
        sh.check(complaint == "", key + ":tableau", complaint, case)
        return tuple(int(x) for x in np.atleast_1d(m)), T.stab_key(D.tuples(a))

    key = f"measure_{base.lower()}_base" + (":destructive" if destructive else "")
    with sh.guard(key, case):
        got, c = distribution(run)
        sh.count(transitions=c, traces_validated_against_impl=c)
        sh.case(case, nontrivial=True)
        sh.check(any(same_distribution(got, w) for w in wants), key,
                 lambda: f"{brief(got)}, want {brief(wants[0])}", case)


# Four qubits: all random and independent, GHZ, a chain, two pairs, partly known
THREE = [[("H", (0, 1, 2, 3))], [("H", (0,)), ("CX", (0, 1)), ("CX", (1, 2)), ("CX", (2, 3))], [("H", (0, 1, 2, 3)), ("CZ", (0, 1)), ("CZ", (1, 2)), ("CZ", (2, 3)), ("S", (1,))],
         [("H", (0, 2)), ("CX", (0, 3)), ("CX", (2, 1)), ("X", (1,))], [("H", (1,)), ("X", (0, 3)), ("CX", (1, 2))]]


def three(sh, item):
    """Three qubits at once, each with its own forced outcome, in every order."""
    k, targets = item
    tab = tuple(tuple(r) for r in P.zero_state(4).tolist())
    for name, qs in THREE[k]:
        for group in ([qs] if len(qs) == 2 and name[0] == "C" else [(q,) for q in qs]):
            tab = T.ref_tab(name, group, tab)
    sh.count(states=1)
    for base, f in (("Z", P.measure_z_base), ("X", P.measure_x_base)):
        for destructive in (False, True):
            for forced in ((0, 1, 1), (1, 0, 0), (0, 0, 1), (1, None, 0)):
                one_base(sh, 4, tab, base, f, targets, destructive, forced)


def forms(sh, item):
    """The same measurement asked for in other forms; all qubits measured away; what does not fit is refused."""
    n, part, parts = item
    tabs = tableaux(n, "states")
    for tab in tabs[part::parts][::1 if n < 3 else 4]:
        sh.count(states=1)
        for base, f in (("Z", P.measure_z_base), ("X", P.measure_x_base)):
            for k in range(1, n + 1):
                for targets in permutations(range(n), k):
                    for destructive in (False, True) if k < n else (False,):
                        for give in (tuple(targets), np.array(targets)) + ((range(targets[0], targets[-1] + 1),) if targets == tuple(range(targets[0], targets[-1] + 1)) else ()):
                            one_base(sh, n, tab, base, f, targets, destructive, None, give)
                        for v in (0, 1):
                            for gf in (v, [v], (v,)):
                                one_base(sh, n, tab, base, f, targets, destructive, (v,) * k, None, gf)
                        one_base(sh, n, tab, base, f, targets, destructive, (None,) * k, None, [None])
                        one_base(sh, n, tab, base, f, targets, destructive, (1,) + (None,) * (k - 1), None, (1,) + (None,) * (k - 1))
                    if k == n:
                        away(sh, n, tab, base, f, targets)
                    for bad in ([0] * (k + 1), (1,) * (k + 2), []):
                        try:
                            f(T.arr(tab), list(targets), forced_outcomes=bad)
                        except Exception:  # noqa: BLE001
                            sh.count(refused=1)
                        else:
                            sh.fail("forms:refused", f"{len(bad)} forced outcomes for {k} qubits were not refused", (n, base, targets, bad))
            for bad in (n, n + 1, 2 * n, -1, [n], [0, n], [-1]):
                for destructive in (False, True):
                    try:
                        f(T.arr(tab), bad, destructive=destructive)
                    except Exception:  # noqa: BLE001
                        sh.count(refused=1)
                    else:
                        sh.fail("forms:outside", f"measuring qubit {bad} of {n} was not refused", (n, base, bad))


def away(sh, n, tab, base, f, targets):
    """Measuring all qubits destructively leaves nothing but the outcomes."""
    case = ([D.show(r) for r in tab], base, targets)
    want = {}
    for (res, _), p in ref_bases(tab, base, targets, False, (None,) * n).items():
        want[res] = want.get(res, 0) + p

    def run():
        a, m = f(T.arr(tab), list(targets), destructive=True)
        sh.check(np.shape(a)[0] == 0, "forms:away", f"shape {np.shape(a)} after measuring all qubits away", case)
        return tuple(int(x) for x in np.atleast_1d(m))
    with sh.guard("forms:away", case):
        got, c = distribution(run)
        sh.count(transitions=c, traces_validated_against_impl=c)
        sh.case(case)
        sh.check(got.keys() == want.keys() and all(abs(got[x] - want[x]) < 1e-9 for x in want), "forms:away", f"{got}, want {want}", case)


def weak_ok(a):
    """Stabilisers commute and are paired with exactly their own destabiliser."""
    n = len(a) // 2
    t = D.tuples(a)
    return all(D.symp(t[n + i], t[n + j]) == 0 and D.symp(t[i], t[n + j]) == int(i == j)
               for i in range(n) for j in range(n))


def assert_shape(a, n):
    from ..core import Violation
    if a.shape != (2 * n, 2 * n + 1):
        raise Violation("measure:shape", f"shape {a.shape} for {n} qubits")


def resets(sh, item):
    n, part, parts, thorough = item
    tabs = tableaux(n, "all" if n == 1 else "states")
    if n == 2:
        tabs = list(T.closure(2))[:: 1 if thorough else 12] + tabs
    if n == 3 and not thorough:
        tabs = tabs[::2]
    names = ("Z", "X", "-Z", "-X", "+Z", "+X", "Y", "-Y")
    case_no = []
    for tab in tabs[part::parts]:
        sh.count(states=1)
        case_no.append(0)
        rho0 = D.rho_of_rows(tab[n:])
        for name in names:
            for k in (1, 2):
                if k > n:
                    continue
                for targets in permutations(range(n), k):
                    want = rho0
                    for q in targets:
                        row = single(name[-1], q, n)[:-1] + (int(name[0] == "-"),)
                        flip = D.pauli(single("Z" if name[-1] in "X" else "X", q, n))
                        _, a = proj_raw(want, row, 0)
                        _, b = proj_raw(want, row, 1)
                        want = a + flip @ b @ flip
                    case = ([D.show(r) for r in tab], name, targets)
                    forms = [0] + ([1] if name in "XZ" else [])
                    for form in forms:
                        def run():
                            tg = targets[0] if k == 1 else [list, tuple, np.array, iter][len(case_no) % 4](targets)
                            if form:
                                s = QuantumState(n)
                                s.tableau = T.arr(tab)
                                s.reset_qubits_to_eigenstate(name, list(targets))
                                a = s.tableau
                            else:
                                a = P.reset_qubits_to_eigenstate(T.arr(tab), name, tg)
                            sh.check(D.invariant(a) == "", "reset:tableau", lambda: D.invariant(a), case)
                            return D.tuples(a)
                        with sh.guard(f"reset:{name}", case):
                            got, c = distribution(run)
                            sh.count(transitions=c, traces_validated_against_impl=c)
                            sh.case(case, nontrivial=not np.allclose(want, rho0))
                            rho = sum(p * D.rho_of_rows(t[n:]) for t, p in got.items())
                            sh.check(np.allclose(rho, want), f"reset:{name}",
                                     "averaged state after reset is not the eigenstate times the rest", case)


def proj_raw(rho, row, m):
    d = len(rho)
    p = (np.eye(d) + (-1) ** m * D.pauli(row)) / 2
    return None, p @ rho @ p


def large(sh, item):
    """n=4,5: sequences of three measurements from cluster/GHZ-like states.

    Reference here is the stabiliser group itself: repeated measurement returns the same
    value, the measured operator ends up in the group with that sign, and every old
    group element commuting with it stays.
    """
    n, thorough, which = item
    star = [("H", (0,))] + [("CX", (0, q)) for q in range(1, n)]
    line = [("H", (q,)) for q in range(n)] + [("CZ", (q, q + 1)) for q in range(n - 1)]
    ring = line + [("CZ", (n - 1, 0)), ("S", (0,)), ("Y", (1,))]
    fams = [star, line, ring]
    ops = [r for r in D.all_rows(n, (0, 1)) if 0 < sum(a | b for a, b in zip(r[:n], r[n:2 * n])) <= 2]
    for fam in fams[which:which + 1]:
        tab = D.tuples(P.zero_state(n))
        for g, a in fam:
            tab = T.ref_tab(g, a, tab)
        sh.count(states=1)
        for i, op in enumerate(ops):
            for op2 in ops[i % 3:: 3] if thorough else ops[i % 24:: 24]:
                case = (n, D.show(op), D.show(op2), [D.show(r) for r in tab[n:]])

                def run():
                    a, m1 = P.measure(T.arr(tab), T.arr(op))
                    a = np.array(a)
                    before = D.tuples(a)[n:]
                    a, m2 = P.measure(a, T.arr(op2))
                    after = D.tuples(np.array(a))[n:]
                    a, m3 = P.measure(np.array(a), T.arr(op2))
                    return (int(m1), int(m2), int(m3), before, after, D.tuples(a)[n:],
                            D.invariant(a))
                with sh.guard("measure:large", case):
                    got, c = distribution(run)
                    sh.count(transitions=3 * c, traces_validated_against_impl=c)
                    sh.case(case)
                    for (m1, m2, m3, b, s, s3, inv), _ in got.items():
                        sh.check(m2 == m3 and inv == "", "measure:repeat",
                                 f"repeat gives {m3} after {m2}; {inv}", case)
                        sh.check(member(s, op2[:-1] + (op2[-1] ^ m2,)), "measure:group",
                                 "measured operator not in the state's group", case)
                        old = tab[n:]
                        for g in old:
                            if D.symp(g, op) == 0:
                                sh.check(member(b, g), "measure:kept", f"{D.show(g)} lost", case)
                        free = not any_member(old, op)
                        outs = {k[0] for k in got}
                        sh.check(outs == ({0, 1} if free else {int(not member(old, op))}),
                                 "measure:dist", f"outcomes {outs}", case)


_span = {}


def span(rows):
    """All elements of the group generated by commuting rows (dict: bits -> sign)."""
    if rows not in _span:
        if len(_span) > 5000:
            _span.clear()
        n = len(rows[0]) // 2
        out = {(0,) * (2 * n): 0}
        for r in rows:
            new = dict(out)
            for bits, s in out.items():
                b, sg = mul(bits + (s,), r)
                new[b] = sg
            out = new
        _span[rows] = out
    return _span[rows]


_PH = {}


def mul(a, b):
    """Product of two commuting rows with its sign (reference, via i-exponents)."""
    n = len(a) // 2
    ph = 2 * a[-1] + 2 * b[-1]
    for q in range(n):
        k = (a[q], a[n + q], b[q], b[n + q])
        if k not in _PH:
            m = D.ONE["IXZY"[k[0] + 2 * k[1]]] @ D.ONE["IXZY"[k[2] + 2 * k[3]]]
            t = D.ONE["IXZY"[(k[0] ^ k[2]) + 2 * (k[1] ^ k[3])]]
            c = np.trace(m @ t.conj().T) / 2
            _PH[k] = {1: 0, 1j: 1, -1: 2, -1j: 3}[complex(np.round(c))]
        ph += _PH[k]
    assert ph % 2 == 0
    return tuple(x ^ y for x, y in zip(a[:-1], b[:-1])), (ph % 4) // 2


def member(rows, op):
    return span(tuple(rows)).get(op[:-1]) == op[-1]


def any_member(rows, op):
    return op[:-1] in span(tuple(rows))


def dense(sh, n):
    """Generators with a Pauli operator on every qubit: products pick up many factors i."""
    full = (1 << n) - 1
    whole = {"X": (full, 0), "Z": (0, full), "Y": (full, full)}
    for a, b in permutations("XYZ", 2):
        pairs = [f"{b}{i} {b}{i + 1}" for i in range(1, n - 1)]
        for signs in ("+-", "-+") if n < 200 else ("--",):
            case = (n, a, b, signs)
            sh.case(case)
            with sh.guard("dense", case):
                arr = P.string_to_state([signs[0] + a * n, signs[1] + b * n, *pairs], qubits=n)
                rows = W.rows_of(arr)
                base = W.echelon(rows[n:])
                des, stabs = rows[:n], rows[n:]
                for c in "XYZ":
                    op = (*whole[c], 0)
                    _, m = P.measure(arr.copy(), np.array(W.bits(op, n), dtype="u1"))
                    sh.count(transitions=1, traces_validated_against_impl=1)
                    sh.check(int(m) == W.sign_in(stabs, des, op), "dense:outcome", lambda: f"{c} everywhere: outcome {m}", case)
                # random outcomes: rows get multiplied by dense ones
                for q, c, f in ((0, a, 0), (n - 1, b, 1), (n // 2, ({"X", "Y", "Z"} - {a, b}).pop(), 1)):
                    op = (whole[c][0] & 1 << q, whole[c][1] & 1 << q, 0)
                    got, m = P.measure(arr.copy(), np.array(W.bits(op, n), dtype="u1"), forced_outcome=f)
                    w = W.sign_in(stabs, des, op)
                    g = W.rows_of(got)
                    sh.count(states=1, transitions=1, traces_validated_against_impl=1)
                    sh.check(int(m) == (f if w is None else w) and not W.valid(g) and
                             W.echelon(g[n:]) == (W.echelon(W.measured(stabs, op, f)) if w is None else base),
                             "dense:state", lambda: f"{c}{q}: wrong state or outcome {m}", case)


def wide_operators(n, stabs, destabs):
    """Single-qubit operators everywhere, products of generators, and dense ones."""
    every = max(1, n // 12)
    out = [(x << q, z << q, s) for q in [*range(0, n, every), n - 1] for x, z, s in ((1, 0, 0), (0, 1, 1), (1, 1, 0))]
    acc = (0, 0, 0)
    for i, g in enumerate(stabs):
        acc = W.prod(acc, g)
        if i % every == 0 or i == n - 1:
            out += [(g[0], g[1], i & 1), (*acc[:2], acc[2] ^ (i & 1)), W.mul(acc, destabs[i])[0] + (0,), destabs[i]]
    full = (1 << n) - 1
    out += [(full, 0, 0), (0, full, 1), (full, full, 0), (full // 3, full // 5, 1)]
    return [o for o in out if o[0] or o[1]]


def wide(sh, item):
    """Large registers: every operator of a list measured, and histories of measurements and resets."""
    n, fam, thorough = item
    W.selftest()
    tab = list(W.tableau(n, fam))
    arr = W.array(tab, n)
    des, stabs = tab[:n], tab[n:]
    base = W.echelon(stabs)

    def after(a, want, case):
        """Valid tableau whose stabilisers generate the wanted group."""
        g = W.rows_of(a)
        bad = W.valid(g)
        sh.check(len(g) == 2 * n and not bad, "wide:tableau", bad, case)
        sh.check(not bad and W.echelon(g[n:]) == want, "wide:state", "wrong state after the measurement", case)

    hist_arr, hist_stabs = arr.copy(), stabs
    for k, op in enumerate(wide_operators(n, stabs, des)):
        case = (item, k)
        want = W.sign_in(stabs, des, op)
        row = np.array(W.bits(op, n), dtype="u1")
        with sh.guard("wide", case):
            res = []

            def run():
                a, m = P.measure(arr.copy(), row)
                res.append((int(m), np.array(a)))
                return int(m)
            got, c = distribution(run)
            sh.count(states=1, transitions=c, traces_validated_against_impl=c)
            sh.case((item, op))
            sh.check(same_distribution(got, {0: .5, 1: .5} if want is None else {want: 1.0}), "wide:outcome", lambda: f"outcomes {got}, expected {want}", case)
            for m, a in res:
                after(a, W.echelon(W.measured(stabs, op, m)) if want is None else base, case)
            # the same operator on what the earlier ones of the list left, forced
            f = k & 1
            a, m = P.measure(hist_arr.copy(), row, forced_outcome=f)
            rs = W.rows_of(hist_arr)
            w = W.sign_in(rs[n:], rs[:n], op)
            if sh.check(int(m) == (f if w is None else w), "wide:forced", f"forced {f}: outcome {m}, expected {w}", case):
                hist_stabs = W.measured(rs[n:], op, f) if w is None else rs[n:]
                after(a, W.echelon(hist_stabs), case)
            hist_arr = np.array(a)
        if len(sh.viol) > 4:
            return
    # measurements of several qubits, destructive or not; resets
    for k, ts in enumerate([(0,), (n - 1,), (n - 1, 0), tuple(range(0, n, max(2, n // 6))), tuple(range(n - 1, 0, -max(1, n // 5)))]):
        for b, f in (("Z", P.measure_z_base), ("X", P.measure_x_base)):
            for destructive in (False, True):
                case = (item, b, ts, destructive)
                with sh.guard("wide:base", case):
                    fo = [(i + k) & 1 for i in range(len(ts))]
                    a, m = f(arr.copy(), ts[0] if len(ts) == 1 else list(ts), destructive=destructive, forced_outcomes=fo[0] if len(ts) == 1 else list(fo))
                    m = [int(v) for v in np.atleast_1d(m)]
                    cur, wantm = stabs, {}
                    for q, v in zip(ts, m):
                        op = (1 << q, 0, 0) if b == "X" else (0, 1 << q, 0)
                        if any(W.symp(g, op) for g in cur):
                            cur = W.measured(cur, op, v)
                    e = W.echelon(cur)
                    # each measured operator is in the group, with the reported sign
                    ok = all(W.echelon(cur) == W.echelon_or(cur, ((1 << q, 0, v) if b == "X" else (0, 1 << q, v))) for q, v in zip(ts, m))
                    sh.count(transitions=1)
                    sh.case(case)
                    sh.check(ok, "wide:base", f"outcomes {m} are impossible", case)
                    g = W.rows_of(a)
                    if not destructive:
                        after(a, e, case)
                    else:
                        keep = [q for q in range(n) if q not in ts]
                        mask = sum(1 << q for q in ts)
                        # the conditional state of the rest: what remains once the measured qubits are fixed
                        fixed = [((1 << q, 0, v) if b == "X" else (0, 1 << q, v)) for q, v in zip(ts, m)]
                        rest = []
                        for r in cur:
                            for o in fixed:
                                if (r[0] & o[0]) | (r[1] & o[1]):
                                    r = W.prod(r, o)
                            if r[0] & ~mask | r[1] & ~mask:
                                rest.append(r)
                        sq = lambda v: sum((v >> q & 1) << i for i, q in enumerate(keep))
                        rest = W.echelon_dep([(sq(x), sq(z), s) for x, z, s in rest])
                        sh.check(len(g) == 2 * len(keep) and W.echelon(g[len(keep):]) == rest, "wide:destructive", "wrong state of the remaining qubits", case)
        for name in ("Z", "-X", "Y"):
            case = (item, "reset", name, ts)
            with sh.guard("wide:reset", case):
                a = np.array(P.reset_qubits_to_eigenstate(arr.copy(), name, list(ts)))
                g = W.rows_of(a)
                bad = W.valid(g)
                sh.check(not bad, "wide:reset", bad, case)
                for q in ts:
                    c = name[-1]
                    op = ((c in "XY") << q, (c in "ZY") << q, int(name[0] == "-"))
                    sh.check(not bad and W.sign_in(g[n:], g[:n], op) == 0, "wide:reset", f"qubit {q} is not in the eigenstate {name}", case)
                # what does not involve the qubits stays
                mask = sum(1 << q for q in ts)
                for r in base:
                    if not (r[0] | r[1]) & mask:
                        sh.check(not bad and W.sign_in(g[n:], g[:n], r) == 0, "wide:reset:rest", "the rest has changed", case)
                sh.count(transitions=1)
                sh.case(case)


def errors(sh, item):
    """Malformed requests are refused rather than answered."""
    plus = T.arr(T.ref_tab("H", (0,), D.tuples(P.zero_state(1))))
    for bad in (2, -1):
        sh.case(("forced", bad))
        try:
            P.measure(plus.copy(), T.arr((0, 1, 0)), forced_outcome=bad)
            sh.fail("measure:badforced", f"forced_outcome={bad} accepted", bad)
        except ValueError:
            pass
    for n, m in ((1, 2), (2, 1), (2, 3)):
        sh.case(("size", n, m))
        try:
            P.measure(P.zero_state(n), T.arr((0,) * m + (1,) * m + (0,)))
            sh.fail("measure:size", f"{m}-qubit operator accepted on {n}-qubit state", (n, m))
        except ValueError:
            pass


def finish(n, tier):
    return {}
