"""P04: building, growing, combining and printing states keeps them valid and exact."""
from itertools import permutations, product

import numpy as np

from plaquette import pauli as P
from plaquette.device import QuantumState

from .. import dense as D
from .. import tab as T
from .. import wide as W

LEVEL = "model_checking"
RULE = ("state = tableau; transition = one constructor/extension call (string form, tensor product, "
        "qubit insertion at every position, operator application); all stabiliser states of 1-3 "
        "qubits, all generator choices for n<=2, all malformed generator pairs; non-trivial = result "
        "differs from the zero state")
ASSUMPTIONS = ["reference: GF(2) symplectic algebra and dense density matrices"]
CHUNK = 1
A = T.arr


def plan(tier):
    t = tier == "thorough"
    items = [("zero", ()), ("from_strings", (1, 0, 1, True))]
    items += [("from_strings", (2, i, 8, True)) for i in range(8)]
    items += [("from_strings", (3, i, 63, t)) for i in range(63)]
    items += [("lengths", (1, 0, 1)), *[("lengths", (2, i, 4)) for i in range(4)]]
    items += [("with_destabs", (1, 0, 1)), *[("with_destabs", (2, i, 16)) for i in range(16)]]
    items += [("roundtrip", (n, i, 8, t)) for n in (1, 2, 3) for i in range(8)]
    items += [("larger", (n,)) for n in (4, 5)]
    items += [("tensor", (i, 8, t)) for i in range(8)]
    items += [("insert", (n, i, 8, t)) for n in (1, 2, 3) for i in range(8)]
    items += [("apply", (n, i, 8)) for n in (1, 2) for i in range(8)]
    items += [("wide", (n, f)) for n in W.SIZES[:-1] + ((260,) if t else ()) for f in W.FAMILIES]
    return items


def valid_state(sh, key, got, want_stabs, case):
    """Result must be a valid tableau whose stabiliser rows are exactly want_stabs."""
    bad = D.invariant(got)
    sh.check(bad == "", key + ":tableau", bad, case)
    if not bad:
        n = len(got) // 2
        sh.check(D.tuples(got)[n:] == tuple(want_stabs), key,
                 lambda: f"{[D.show(r) for r in D.tuples(got)[n:]]} want {[D.show(r) for r in want_stabs]}", case)


def zero(sh, item):
    for n in range(1, 8):
        sh.count(states=1, transitions=1, traces_validated_against_impl=1)
        sh.case(("zero", n))
        with sh.guard("zero", n):
            t = D.tuples(P.zero_state(n))
            w = tuple(tuple(int(j == i) for j in range(2 * n + 1)) for i in range(2 * n))
            sh.check(t == w, "zero", t, n)
            sh.check(D.tuples(QuantumState(n).tableau) == w, "zero:object", "", n)
            sh.check(list(P.count_qubits(P.zero_state(n))) == [n], "zero:count", "", n)


def from_strings(sh, item):
    n, part, parts, signs = item
    rows = D.all_rows(n, (0, 1) if signs and n < 3 else (0,))
    nz = [r for r in rows if any(r[:-1])]
    for first in nz[part::parts]:
        for rest in product(rows if n < 3 else nz, repeat=n - 1):
            gens = (first, *rest)
            good = all(D.symp(a, b) == 0 for a in gens for b in gens) and \
                D.rank2([g[:-1] for g in gens]) == n
            if n == 3 and not good and rows.index(rest[-1]) % 9:
                continue  # n=3: every ninth invalid triple is enough to enumerate
            if n == 3 and good:
                variants = [gens] if not signs else [
                    tuple(g[:-1] + (s,) for g, s in zip(gens, sg)) for sg in product((0, 1), repeat=3)]
                if not signs:
                    k = hash(gens) % 8
                    variants.append(tuple(g[:-1] + ((k >> i) & 1,) for i, g in enumerate(gens)))
            else:
                variants = [gens]
            for gs in variants:
                text = [D.show(g) for g in gs]
                sh.case(gs)
                sh.count(transitions=1, traces_validated_against_impl=1)
                if good:
                    sh.count(states=1)
                    with sh.guard("string_to_state", text):
                        valid_state(sh, "string_to_state", P.string_to_state(text), gs, text)
                else:
                    try:
                        got = P.string_to_state(text)
                        sh.fail("string_to_state:invalid",
                                f"non-commuting or dependent generators accepted: {got}", text)
                    except ValueError:
                        pass
                    except Exception as e:  # noqa: BLE001
                        sh.fail("string_to_state:invalid", f"{type(e).__name__}: {e}", text)
    sh.sample(f"last generators {text}, valid={good}")


def with_destabs(sh, item):
    n, part, parts = item
    rows = D.all_rows(n, (0,))
    tuples_ = list(product(rows, repeat=n))
    for stabs in tuples_[part::parts]:
        for des in tuples_:
            tab = des + stabs
            good = D.invariant(A(tab)) == ""
            text = ([D.show(r) for r in stabs], [D.show(r) for r in des])
            sh.case(tab)
            sh.count(transitions=1, traces_validated_against_impl=1)
            try:
                got = P.string_to_state(*text)
                sh.check(good, "string_to_state:destab", "inconsistent destabilisers accepted", text)
                if good:
                    sh.count(states=1)
                    sh.check(D.tuples(got) == tab, "string_to_state:destab", f"{got}", text)
            except ValueError as e:
                sh.check(not good, "string_to_state:destab", f"valid tableau refused: {e}", text)


def lengths(sh, item):
    """Lists with too few or too many operators are inconsistent, too."""
    n, part, parts = item
    rows = D.all_rows(n, (0,))
    if n == 1:
        todo = [(s, d) for a, b in product(range(1, 4), range(4)) for s in product(rows, repeat=a) for d in product(rows, repeat=b)]
    else:
        todo = []
        for t in [[tuple(int(x) for x in r) for r in t] for t in T.states(n)]:
            t = [r[:-1] + (0,) for r in t]
            des, stabs = t[:n], t[n:]
            variants = lambda rs: [rs, *[rs[:i] + rs[i + 1:] for i in range(n)], *[rs[:i] + [r] + rs[i:] for i in range(n + 1) for r in rows]]  # noqa: E731
            some = lambda rs: [rs, *[rs[:i] + rs[i + 1:] for i in range(n)], *[rs + [r] for r in rows]]  # noqa: E731
            todo += [(s, d) for s in variants(stabs) for d in some(des)] + [(s, d) for s in some(stabs) for d in variants(des)]
    for s, d in todo[part::parts]:
        if len(s) == n and len(d) == n or not s:
            continue
        text = ([D.show(r) for r in s], [D.show(r) for r in d])
        sh.case(text)
        sh.count(transitions=1, states=1)
        try:
            got = P.string_to_state(*text)
        except Exception:  # noqa: BLE001
            sh.count(refused=1)
            continue
        sh.fail("string_to_state:length", f"{text} accepted, shape {np.shape(got)}", text)
        if len(sh.viol) > 3:
            return


def roundtrip(sh, item):
    n, part, parts, thorough = item
    tabs = T.states(n) + (list(T.closure(2))[:: 1 if thorough else 5] if n == 2 else [])
    for t in tabs[part::parts]:
        sh.count(states=1, transitions=2, traces_validated_against_impl=1)
        sh.case(t)
        with sh.guard("state_text", [D.show(r) for r in t]):
            for ident in (True, False):
                d, s = P.state_to_stabiliser_string(A(t), show_identities=ident)
                if ident:
                    sh.check([*d, *s] == [D.show(r) for r in t], "state_text", f"{d} {s}", t)
                back = P.string_to_state(s, d, qubits=n)
                sh.check(D.tuples(back) == t, "state_text:back", f"{back}", t)
                back = P.string_to_state(s, qubits=n)
                valid_state(sh, "state_text:stabs", back, t[n:], t)


def larger(sh, item):
    """Graph states of every graph on n vertices (all signs +), from their generators."""
    (n,) = item
    pairs = [(i, j) for i in range(n) for j in range(i)]
    graphs = list(product((0, 1), repeat=len(pairs)))
    for g in graphs[:: 1 if n == 4 else 5]:
        gens = []
        for q in range(n):
            row = [0] * (2 * n + 1)
            row[q] = 1
            for (i, j), e in zip(pairs, g):
                if e and q in (i, j):
                    row[n + (j if q == i else i)] = 1
            row[-1] = (sum(g) + q) % 2
            gens.append(tuple(row))
        # also with generators multiplied into one another (denser rows)
        for dense in (False, True):
            gs = list(gens)
            if dense:
                from .p02 import mul
                for q in range(1, n):
                    b, s = mul(gs[q - 1], gs[q])
                    gs[q] = b + (s,)
            text = [D.show(r) for r in gs]
            sh.case(tuple(gs))
            sh.count(states=1, transitions=1, traces_validated_against_impl=1)
            with sh.guard("string_to_state", text):
                valid_state(sh, "string_to_state", P.string_to_state(text), gs, text)


def embed(row, where, total):
    n = len(row) // 2
    out = [0] * (2 * total + 1)
    for q, w in enumerate(where):
        out[w], out[total + w] = row[q], row[n + q]
    out[-1] = row[-1]
    return tuple(out)


def tensor(sh, item):
    part, parts, thorough = item
    a1 = list(T.closure(1))
    a2 = T.states(2)
    combos = [(x, y) for x in a1 for y in a1] + [(x, y) for x in a1[::3] for y in a2] + \
        [(x, y) for x in a2 for y in a1[::3]] + [(x, y) for x in a2[:: 1 if thorough else 4] for y in a2]
    for x, y in combos[part::parts]:
        n, m = len(x) // 2, len(y) // 2
        want = [embed(r, range(n), n + m) for r in x[:n]] + [embed(r, range(n, n + m), n + m) for r in y[:m]] \
            + [embed(r, range(n), n + m) for r in x[n:]] + [embed(r, range(n, n + m), n + m) for r in y[m:]]
        case = ([D.show(r) for r in x], [D.show(r) for r in y])
        sh.case((x, y))
        sh.count(states=1, transitions=1, traces_validated_against_impl=1)
        with sh.guard("tensor", case):
            got = P.tensor_product(A(x), A(y))
            valid_state(sh, "tensor", got, want[n + m:], case)
            for z in a1[::8]:
                k = n + m + 1
                w3 = [embed(r, range(n + m), k) for r in want[n + m:]] + [embed(z[1], [n + m], k)]
                got = P.tensor_product(A(x), A(y), A(z))
                valid_state(sh, "tensor3", got, w3, case)
    for x in a1[part::parts]:
        for r in D.all_rows(1):
            for args in ((A(x), A(r)), (A(r), A(x))):
                sh.case((x, r, len(args[0])))
                try:
                    P.tensor_product(*args)
                    sh.fail("tensor:mixed", "operator times state accepted", (x, r))
                except ValueError:
                    pass


def insert(sh, item):
    n, part, parts, thorough = item
    tabs = T.states(n)
    if n == 2:
        tabs = tabs + list(T.closure(2))[:: 1 if thorough else 20]
    if n == 3 and not thorough:
        tabs = tabs[::4]
    for t in tabs[part::parts]:
        sh.count(states=1)
        calls = [(p,) for p in range(n + 1)]
        calls += [p for p in product(range(n + 1), repeat=2)]
        for pos in calls:
            forms = [list(pos), np.array(pos)] + ([pos[0]] if len(pos) == 1 else [])
            if pos == (n,):
                forms.append(None)
            # position in the *old* register, as for list/array insertion
            total = n + len(pos)
            old = [q + sum(p <= q for p in pos) for q in range(n)]
            new = [q for q in range(total) if q not in old]
            rho_rows = [embed(r, old, total) for r in t[n:]] + \
                [tuple(int(c == total + q) for c in range(2 * total + 1)) for q in new]
            for form in forms:
                case = ([D.show(r) for r in t], form)
                sh.case((t, pos, type(form).__name__))
                sh.count(transitions=1, traces_validated_against_impl=1)
                with sh.guard("insert", case):
                    got = P.append_qubit(A(t)) if form is None else P.insert_qubit_at(A(t), form)
                    bad = D.invariant(got)
                    sh.check(bad == "", "insert:tableau", bad, case)
                    if not bad:
                        # the same group: same span (order of generators is free)
                        s = D.tuples(got)[len(got) // 2:]
                        from .p02 import span
                        sh.check(len(got) == 2 * total and span(s) == span(tuple(rho_rows)), "insert",
                                 lambda: f"{[D.show(r) for r in s]} want {[D.show(r) for r in rho_rows]}", case)
        for bad in (n + 1, n + 3):
            sh.case((t, "bad", bad))
            try:
                P.insert_qubit_at(A(t), bad)
                sh.fail("insert:range", f"position {bad} accepted for {n} qubits", t)
            except IndexError:
                pass


def apply(sh, item):
    """Row-wise operator products (signs only where the product is Hermitian)."""
    n, part, parts = item
    from .p03 import ref_mul
    rows = D.all_rows(n)
    tabs = list(T.closure(n))[:: 1 if n == 1 else 60]
    for t in tabs[part::parts]:
        sh.count(states=1)
        for op in rows:
            sh.case((t, op))
            sh.count(transitions=1, traces_validated_against_impl=1)
            with sh.guard("apply", (t, op)):
                got = D.tuples(P.apply_operator(A(op), A(t)))
                for r, g in zip(t, got):
                    b, e = ref_mul(op, r)
                    ok = g[:-1] == b and (e % 2 or g[-1] == (e % 4) // 2)
                    sh.check(ok, "apply", lambda: f"{D.show(op)}*{D.show(r)} = {D.show(g)}", (t, op))
        many = [rows[(7 * i + part) % len(rows)] for i in range(2 * n)]
        with sh.guard("apply:list", (t, many)):
            got = D.tuples(P.apply_operator(A(many), A(t)))
            for op, r, g in zip(many, t, got):
                b, e = ref_mul(op, r)
                sh.check(g[:-1] == b and (e % 2 or g[-1] == (e % 4) // 2), "apply:list",
                         lambda: f"{D.show(op)}*{D.show(r)} = {D.show(g)}", (t, many))


def spread(r, old):
    x = z = 0
    for q, w in enumerate(old):
        x |= (r[0] >> q & 1) << w
        z |= (r[1] >> q & 1) << w
    return x, z, r[2]


def wide(sh, item):
    """Large registers: states of several families built, printed, extended and combined."""
    n, fam = item
    W.selftest()
    rows = list(W.tableau(n, fam))
    arr = W.array(rows, n)
    stabs, des = rows[n:], rows[:n]
    text = lambda r: ("-" if r[2] else "") + "".join("IXZY"[(r[0] >> q & 1) + 2 * (r[1] >> q & 1)] for q in range(n))
    short = lambda r: ("-" if r[2] else "") + "".join(f"{'IXZY'[(r[0] >> q & 1) + 2 * (r[1] >> q & 1)]}{q}" for q in range(n) if (r[0] | r[1]) >> q & 1)
    # dense generators of the same group: running products
    dense, acc = [], (0, 0, 0)
    for r in stabs:
        acc = W.prod(acc, r)
        dense.append(acc)

    def ok(got, want, key, case, group=False):
        g = W.rows_of(got)
        m = len(want)
        bad = "" if len(g) == 2 * m else f"{len(g)} rows"
        bad = bad or W.valid(g)
        sh.check(not bad, key + ":tableau", bad, case)
        if not bad:
            a, b = (W.echelon(g[m:]), W.echelon(want)) if group else (g[m:], want)
            sh.check(a == b, key, "stabilisers are wrong", case)

    for k, gens in enumerate((stabs, stabs[::-1], dense)):
        for form in (text, short):
            case = (item, k, form is text)
            sh.case(case)
            sh.count(states=1, transitions=1, traces_validated_against_impl=1)
            with sh.guard("wide:string_to_state", case):
                ok(P.string_to_state([form(r) for r in gens], qubits=n), gens, "wide:string_to_state", case)
    with sh.guard("wide:string_to_state", item):
        got = P.string_to_state([text(r) for r in stabs], [text(r) for r in des])
        sh.check(W.rows_of(got) == rows, "wide:string_to_state:destab", "", item)
        d, s = P.state_to_stabiliser_string(arr, show_identities=True)
        sh.check(W.rows_of(P.string_to_state(s, d)) == rows, "wide:state_text", "", item)
    # generators that commute but are dependent, or that do not commute, are refused
    for k, gens in enumerate((stabs[:-1] + [W.prod(stabs[0], stabs[n // 2])], stabs[:-1] + [des[0]], [dense[-1], *stabs[1:-1], dense[0]] if n > 2 else stabs[:1] * n)):
        good = W.echelon(gens) is not None if all(W.symp(a, b) == 0 for a in gens for b in gens) else False
        sh.case((item, "bad", k))
        try:
            P.string_to_state([text(r) for r in gens])
            sh.check(good, "wide:string_to_state:invalid", "accepted", (item, k))
        except ValueError as e:
            sh.check(not good, "wide:string_to_state:valid", f"{e}", (item, k))
    for pos in ((0,), (n,), (n // 2,), (1, n - 1), (n, n), tuple(range(0, n, 8)), (n - 1, 0, 0)):
        total = n + len(pos)
        old = [q + sum(p <= q for p in pos) for q in range(n)]
        new = [q for q in range(total) if q not in old]
        want = [spread(r, old) for r in stabs] + [(0, 1 << q, 0) for q in new]
        case = (item, "insert", pos)
        sh.case(case)
        sh.count(states=1, transitions=1, traces_validated_against_impl=1)
        with sh.guard("wide:insert", case):
            ok(P.insert_qubit_at(arr.copy(), list(pos)), want, "wide:insert", case, group=True)
    for m, f2 in ((1, "flips"), (9, "scramble"), (n, "ghz")):
        other = W.tableau(m, f2) if m > 1 else [(1, 0, 0), (0, 1, 1)]
        case = (item, "tensor", m)
        sh.case(case)
        sh.count(states=1, transitions=2, traces_validated_against_impl=2)
        with sh.guard("wide:tensor", case):
            oarr = W.array(other, m)
            hi = lambda r, k: (r[0] << k, r[1] << k, r[2])
            ok(P.tensor_product(arr, oarr), stabs + [hi(r, n) for r in other[m:]], "wide:tensor", case)
            ok(P.tensor_product(oarr, arr), list(other[m:]) + [hi(r, m) for r in stabs], "wide:tensor", case)
    for op in (dense[-1], des[n // 2], ((1 << n) - 1, (1 << n - 1) | 1, 1)):
        case = (item, "apply", op)
        sh.case(case)
        sh.count(transitions=1, traces_validated_against_impl=1)
        with sh.guard("wide:apply", case):
            got = W.rows_of(P.apply_operator(np.array(W.bits(op, n), dtype="u1"), arr.copy()))
            for r, g in zip(rows, got):
                b, e = W.mul(op, r)
                if not sh.check(g[:2] == b and (e % 2 or g[2] == e // 2), "wide:apply", lambda: f"row {rows.index(r)}", case):
                    break
    with sh.guard("wide:zero", n):
        sh.check(W.rows_of(P.zero_state(n)) == W.zero(n) and W.rows_of(QuantumState(n).tableau) == W.zero(n), "wide:zero", "", n)
