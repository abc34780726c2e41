"""P17: decoders find the right correction: lightest explanation, and every small error undone."""
from itertools import combinations, product
from math import inf

import numpy as np

from .. import codes as C
from .. import dec as D
from .p15 import DECODERS
from .p16 import graph

LEVEL = "model_checking"
RULE = ("state = (code or graph, rounds, weights, erasure, decoder); transition = one decoded syndrome; for small systems every syndrome is decoded and compared with the exact lightest "
        "explanation (dynamic programming over all error sets), for larger codes every error set below half the distance is decoded; non-trivial = distinct (system, syndrome or error)")
ASSUMPTIONS = ["fusion-blossom works with integer weights of 1% of the largest one; the check allows for exactly that resolution", "PyMatching and fusion-blossom are trusted libraries"]
CHUNK = 1
W1 = dict(pauli_x=1.0, pauli_z=1.0, measurement=1.0)
FINE = 9
MATCHING = ("pymatching", "fusion")


def plan(tier):
    t = tier == "thorough"
    items = [("graphs", (v, lo, t)) for v in (2, 3) for lo in range(1, 1 << (v + v * (v - 1) // 2), 2)]
    items += [("graphs", (4, lo, t)) for lo in range(1, 1 << 10, 8 if not t else 2)]
    fams = [("repetition", 3, 1), ("repetition", 3, 3), ("repetition", 5, 2), ("planar", 2, 1), ("planar", 2, 2), ("rotated", 2, 2), ("rotated", 3, 1), ("xzzx", 3, 1), ("toric", 2, 1),
            ("planar", 3, 1), ("five", 5, 2), ("shor", 9, 1), ("repetition", 7, 2)]
    fams += [("rotated", 3, 2), ("xzzx", 3, 2), ("toric", 2, 2), ("repetition", 5, 4), ("planar", 2, 4), ("shor", 9, 2), ("five", 5, 4), ("rotated", 2, 5)] * t
    items += [("family", (f, d, r, w)) for f, d, r in fams for w in [*range(5 if not t else 9), FINE, FINE + 1]]
    items += [("erased", (f, d, r)) for f, d, r in [("repetition", 3, 2), ("repetition", 5, 1), ("planar", 2, 1), ("planar", 2, 2), ("rotated", 2, 2), ("rotated", 3, 1), ("xzzx", 3, 1), ("toric", 2, 1),
                                                     ("shor", 9, 1)] + [("repetition", 3, 3), ("repetition", 5, 2), ("planar", 3, 1)] * t]
    big = [("planar", 3, 2, 1, 0), ("planar", 3, 3, 1, 0), ("rotated", 3, 3, 1, 0), ("xzzx", 3, 3, 1, 0), ("toric", 3, 2, 1, 0), ("toric", 3, 3, 1, 0), ("shor", 9, 3, 1, 0), ("five", 5, 3, 1, 0),
           ("repetition", 5, 3, 2, 0), ("repetition", 7, 2, 3, 0), ("planar", 4, 2, 1, 0), ("planar", 5, 1, 2, 0), ("rotated", 5, 1, 2, 0), ("xzzx", 5, 1, 2, 0), ("rotated", 5, 2, 2, 0), ("toric", 5, 1, 1, 0),
           ("planar", 3, 1, 0, 2), ("rotated", 3, 2, 0, 2), ("xzzx", 3, 2, 0, 2), ("toric", 3, 1, 0, 2), ("shor", 9, 1, 0, 2), ("planar", 4, 1, 1, 1), ("rotated", 4, 1, 1, 1), ("rotated", 4, 1, 0, 3),
           ("repetition", 5, 2, 1, 2), ("repetition", 5, 2, 0, 4), ("rotated", 5, 1, 1, 1)]
    big += [("repetition", 3, 12, 1, 0), ("rotated", 3, 11, 1, 0), ("planar", 3, 10, 1, 0), ("repetition", 11, 2, 1, 0), ("rotated", 7, 10, 1, 0), ("rotated", 11, 2, 1, 0), ("repetition", 131, 1, 1, 0), ("rotated", 3, 11, 0, 1), ("repetition", 131, 2, 0, 1), ("xzzx", 4, 10, 0, 1)]
    big += [("planar", 3, 2, 0, 2), ("planar", 5, 2, 2, 0), ("rotated", 5, 3, 2, 0), ("xzzx", 5, 2, 2, 0), ("toric", 5, 1, 2, 0), ("rotated", 7, 1, 3, 0), ("planar", 4, 1, 0, 3), ("rotated", 5, 1, 1, 2), ("rotated", 5, 1, 0, 3), ("toric", 4, 1, 1, 1),
            ("planar", 5, 1, 1, 1), ("repetition", 9, 2, 4, 0)] * t
    items += [("bounded", (f, d, r, e, s, part, parts)) for f, d, r, e, s in big for parts in [8 if (d >= 5 and r * e >= 2) or s >= 2 else 1] for part in range(parts)]
    return items


# ----------------------------------------------------------------------------- graphs
def graphs(sh, item):
    """Every graph up to four vertices, every syndrome, weights from {1, 2, 4} (all patterns on few edges)."""
    v, lo, thorough = item
    step = 2 if v < 4 else 8 if not thorough else 2
    for bits in range(lo, min(lo + step, 1 << (v + v * (v - 1) // 2))):
        edges, rows = graph(v, bits)
        n = len(edges)
        masks = [sum(1 << i for i in e) for e in edges]
        if n <= (6 if thorough else 3):
            patterns = list(product((1.0, 2.0, 4.0), repeat=n))
        elif n <= (7 if thorough else 4):
            patterns = list(product((1.0, 4.0), repeat=n))
        else:
            patterns = [tuple(float((1, 2, 4, 1, 2)[(i * a + b) % 5]) for i in range(n)) for a, b in ((1, 0), (2, 1), (3, 2))]
        fine = [tuple(float((51, 59, 100, 54, 97)[(i * a + b) % 5]) for i in range(n)) for a, b in ((1, 0), (2, 1), (3, 2), (4, 3))]
        # All error sets: syndrome, members
        sets = [(0, ())]
        for q, m in enumerate(masks):
            sets += [(s ^ m, c + (q,)) for s, c in sets]
        variants = [(None, "uf"), (None, "ufnw"), (None, "pymatching"), (None, "fusion")] + [(p, name) for p in patterns for name in ("uf", "pymatching", "fusion")]
        variants += [(p, name) for p in fine for name in MATCHING]
        # Some errors as likely as not, the others of any magnitude
        free = [tuple((0.0, 1.0, 2.0, 4.0)[(i * a + b) % 4] * scale for i in range(n)) for a, b in ((1, 0), (2, 1), (3, 2), (1, 3)) for scale in (0.01, 1000.0)]
        free += [tuple((1.0, 2.0, 4.0)[(i * a + b) % 3] * scale for i in range(n)) for a, b in ((1, 0), (2, 1)) for scale in (0.01, 1000.0)]
        variants += [(p, name) for p in free for name in ("uf", "pymatching", "fusion") if any(p)]
        slacked = {*fine, *free}
        best_of = {}
        for w, name in variants:
            if w not in best_of:
                ww = w or (1.0,) * n
                best, cycle = {}, inf
                for s, c in sets:
                    cost = sum(ww[q] for q in c)
                    if s == 0 and c:
                        cycle = min(cycle, cost)
                    if s not in best or cost < best[s][0]:
                        best[s] = (cost, c)
                best_of[w] = best, cycle
            best, cycle = best_of[w]
            with sh.guard("graphs", (edges, w, name)):
                dec = D.on_graph(DECODERS[name], rows, 1, None if w is None else dict(pauli_x=np.array(w), pauli_z=1.0, measurement=1.0))
                sh.count(states=1)
                for s, (cost, c) in best.items():
                    dec.decode(None, np.array([[s >> i & 1 for i in range(v)]], dtype=bool))
                    sel = tuple(q for k, q, t in D.selection(dec))
                    sh.case((edges, w, name, s))
                    sh.count(transitions=1)
                    got = sum((w or (1.0,) * n)[q] for q in sel)
                    # fusion-blossom rounds each weight down to a percent of the largest one
                    slack = max(w) / 100 * len(sel) if w in slacked and name == "fusion" else 0
                    if name in MATCHING:
                        sh.check(got <= cost * 1.001 + slack, "lightest:graph", f"chose {sel} of weight {got}, but {c} has weight {cost}", (edges, w, name, s))
                    if 2 * cost + 2 * slack < cycle - 1e-9 * max(w or (1,)):
                        sh.count(unique=1)
                        sh.check(sorted(sel) == sorted(c), "small:graph", f"chose {sel}; the error {c} of weight {cost} is lighter than half of every cycle", (edges, w, name, s))


# --------------------------------------------------------------------------- families
def weights(code, k):
    n, s = code.n_data_qubits, code.n_stabgens
    lv = np.array([1.0, 2.0, 4.0])
    fine = np.array([.51, .59, 1.0, .54, .97])
    i, j = np.arange(n), np.arange(s)
    return [None, W1, dict(pauli_x=1.0, pauli_z=2.0, measurement=4.0), dict(pauli_x=lv[i % 3], pauli_z=lv[(2 * i + 1) % 3], measurement=2.0),
            dict(pauli_x=lv[(i // 2) % 3], pauli_z=lv[(i + 2) % 3], measurement=lv[j % 2]), dict(pauli_x=4.0, pauli_z=1.0, measurement=1.0),
            dict(pauli_x=lv[(i * i) % 3], pauli_z=lv[(i * i + i) % 3], measurement=lv[(j * j + 1) % 3]), dict(pauli_x=lv[(i % 4) // 2], pauli_z=lv[((i + 1) % 4) // 2], measurement=lv[1 - j % 2]),
            dict(pauli_x=1.0, pauli_z=1.0, measurement=4.0),
            # different by a few percent: for the matching decoders
            dict(pauli_x=fine[i % 5], pauli_z=fine[(2 * i + 1) % 5], measurement=fine[j % 4]), dict(pauli_x=fine[(i * i + 1) % 5], pauli_z=fine[3 * i % 4], measurement=.77)][k]


def costs(ref, logs, erased=()):
    """Least weight for every (syndrome, logical class)."""
    k = len(logs)
    cost = np.full(1 << (ref.bits + k), inf)
    cost[0] = 0
    idx = np.arange(len(cost))
    er = set(erased)
    for key, m in ref.mask.items():
        o = (1 << key[1], 0) if key[0] == "X" else (0, 1 << key[1]) if key[0] == "Z" else (0, 0)
        m |= sum(1 << (ref.bits + i) for i, l in enumerate(logs) if C.anti(o, l))
        w = 0.0 if key[0] != "M" and (key[2], key[1]) in er else ref.weight[key]
        if w != inf and m:
            cost = np.minimum(cost, cost[idx ^ m] + w)
    return cost.reshape(1 << k, 1 << ref.bits)


def sel_cost(ref, sel, er):
    return sum(0.0 if k[0] != "M" and (k[2], k[1]) in er else ref.weight[k] for k in sel)


def setup(f, d, r, w):
    code = C.make(f, d, r)
    stabs = [C.op(x) for x in code.stabilisers]
    logs = [C.op(x) for x in code.logical_ops]
    wt = None if w is None else {k: np.ones(code.n_data_qubits if k != "measurement" else code.n_stabgens) * v for k, v in w.items()}
    ref = D.Ref(stabs, code.n_data_qubits, r, None if w is None else lambda k: wt[{"X": "pauli_x", "Z": "pauli_z", "M": "measurement"}[k[0]]][k[1]])
    if f == "repetition":
        # A Z error is undetectable: the repetition code protects from X errors only
        logs = [l for l in logs if not any(C.anti((0, 1 << q), l) for q in range(code.n_data_qubits))]
    return code, ref, logs


def all_syndromes(sh, code, ref, logs, dec, name, er, case):
    cost = costs(ref, logs, er)
    dist = cost[1:, 0].min()
    cls = cost.argmin(axis=0)
    least = cost.min(axis=0)
    era = ref.erasure(er) if er else None
    step = max(ref.weight.values()) / 100
    for syn in range(1 << ref.bits):
        if least[syn] == inf:
            continue
        op = C.op(dec.decode(era, ref.array(syn)))
        sh.count(transitions=1)
        sh.case((case, syn))
        slack = 0
        if name in MATCHING:
            sel = D.selection(dec)
            got = sel_cost(ref, sel, er)
            slack = 1e-3 * least[syn] + 1e-9
            if name == "fusion" and len(set(ref.weight.values()) - {1.0, 2.0, 4.0}):
                slack += step * len(sel)
            sh.check(got <= least[syn] + slack, "lightest", f"chose errors of weight {got}, the lightest explanation has weight {least[syn]}", (case, syn))
        if 2 * least[syn] + (2 * slack if name == "fusion" else 0) < dist:
            sh.count(unique=1)
            want = int(cls[syn])
            g = sum(C.anti(op, l) << i for i, l in enumerate(logs))
            sh.check(g == want, "small", f"an error of weight {least[syn]} (lightest logical operator: {dist}) is not undone", (case, syn))
        if len(sh.viol) > 20:
            return


def family(sh, item):
    f, d, r, k = item
    w = weights(C.make(f, d, r), k)
    code, ref, logs = setup(f, d, r, w)
    for name in DECODERS:
        if w is not None and name == "ufnw" or k >= FINE and name not in MATCHING:
            continue
        with sh.guard("family", (item, name)):
            dec = D.quiet_build(DECODERS[name].from_code, code, None, weights=w)
            sh.count(states=1)
            all_syndromes(sh, code, ref, logs, dec, name, (), (item, name))


def erased(sh, item):
    """Erased errors are free: every syndrome, every erasure up to two qubits and every full line of one round."""
    f, d, r = item
    sites = None
    for k, w in ((0, None), (1, W1), (3, 3)):
        code, ref, logs = setup(f, d, r, weights(C.make(f, d, r), w) if isinstance(w, int) else w)
        sites = [(t, q) for t in range(r) for q in range(ref.n)]
        top = 2 if len(sites) <= 10 else 1
        for name in ("uf", "ufnw", "fusion"):
            if w is not None and name == "ufnw":
                continue
            with sh.guard("erased", (item, name)):
                dec = D.quiet_build(DECODERS[name].from_code, code, None, weights=weights(code, w) if isinstance(w, int) else w)
                sh.count(states=1)
                for er in [c for m in range(1, top + 1) for c in combinations(sites, m)] + [tuple(s for s in sites if s[0] == 0)]:
                    all_syndromes(sh, code, ref, logs, dec, name, er, (item, k, name, er))


# ---------------------------------------------------------------------------- bounded
def bounded(sh, item):
    """Every error of e elementary errors, plus anything on s erased qubits (2e + s < d)."""
    f, d, r, e, s, part, parts = item
    code, ref, logs = setup(f, d, r, None)
    dist = {"five": 3, "shor": 3}.get(f, d)
    assert 2 * e + s < dist
    elem = [k for k, m in ref.mask.items() if m or f != "repetition"]
    decs = [(n, D.quiet_build(DECODERS[n].from_code, code, None, weights=w)) for n, w in (("uf", None), ("uf", W1), ("ufnw", None), ("pymatching", None), ("fusion", None)) if not (s and n == "pymatching")]
    sh.count(states=len(decs))
    done = set()
    for i, er in enumerate(combinations([(t, q) for t in range(r) for q in range(ref.n)], s)):
        if s and i % parts != part:
            continue
        inner = [()]
        for t, q in er:
            kinds = [(), (("X", q, t),), (("Z", q, t),), (("X", q, t), ("Z", q, t))]
            inner = [a + b for a in inner for b in (kinds if f != "repetition" else kinds[:2])]
        era = ref.erasure(er) if s else None
        for j, out in enumerate(c for m in ({0, e} if s else range(e + 1)) for c in combinations(elem, m)):
            if not s and j % parts != part:
                continue
            for inn in inner:
                err = out + inn
                syn = ref.syndrome(err)
                o = ref.operator(err)
                cls = sum(C.anti(o, l) << b for b, l in enumerate(logs))
                if (er, syn, cls) in done:
                    continue
                done.add((er, syn, cls))
                for name, dec in decs:
                    sh.count(transitions=1)
                    case = (item[:5], name, er, err)
                    sh.case(case)
                    with sh.guard("bounded", case):
                        op = C.op(dec.decode(era, ref.array(syn)))
                        sh.check(sum(C.anti(op, l) << b for b, l in enumerate(logs)) == cls, "small", "a correctable error is not undone", case)
                        total = (op[0] ^ o[0], op[1] ^ o[1])
                        sh.check(not any(C.anti(total, g) for g in ref.stabs), "small:syndrome", "the correction leaves a syndrome", case)
        done.clear()
        if len(sh.viol) > 20:
            return


def finish(n, tier):
    assert n["unique"] > 5000 and n["transitions"] > 100000, n
    return {}
