"""P18: what a decoder answers depends on the question only, not on what happened before."""
from itertools import combinations, product

import numpy as np

from plaquette.syngraph import SyndromeGraph, SyndromeGraphManager, SyndromeGraphUpdate

from .. import codes as C
from .. import dec as D
from .p15 import DECODERS
from .p17 import W1, weights

LEVEL = "model_checking"
RULE = ("state = what a decoder object was asked before; transition = one more question (syndrome and erasure, including undecodable ones and malformed ones); every ordered pair "
        "(triple in the smallest systems) of questions is asked in direct succession on the real decoder and compared with a decoder that was never used; "
        "non-trivial = distinct sequence of questions")
ASSUMPTIONS = ["a sequence that contains every ordered pair (triple) of questions consecutively covers all histories of that depth up to longer prefixes"]
CHUNK = 1


def plan(tier):
    t = tier == "thorough"
    items = []
    sys = [("repetition", 3, 1, 3, "all"), ("repetition", 3, 2, 2, "single"), ("planar", 2, 1, 2, "single"), ("rotated", 2, 1, 3, "single"), ("rotated", 2, 2, 2, "none"), ("planar", 2, 2, 2, "none"),
           ("toric", 2, 1, 2, "few"), ("five", 5, 1, 2, "single")]
    sys += [("repetition", 3, 2, 3, "few"), ("planar", 2, 2, 2, "single"), ("toric", 2, 1, 2, "single"), ("planar", 2, 1, 3, "few"), ("rotated", 3, 1, 2, "single"), ("xzzx", 2, 2, 2, "single")] * t
    for s in sys:
        for name in DECODERS:
            for w in (0, 1, 3) if t else (0, 3):
                if not (w and (name == "ufnw" or not t and s[:3] == ("planar", 2, 2))):
                    items.append(("histories", s + (name, w)))
    items += [("interleaved", name) for name in DECODERS]
    items += [("aliases", name) for name in DECODERS]
    items += [("updates", (f, d, r, name, t)) for f, d, r in [("repetition", 3, 1), ("planar", 2, 1), ("rotated", 2, 2), ("planar", 2, 2)] + [("rotated", 3, 1), ("xzzx", 2, 3)] * t for name in DECODERS if name != "ufnw"]
    items += [("graphs", (f, d, r, name, t)) for f, d, r in [("repetition", 3, 1), ("planar", 2, 1), ("rotated", 2, 2), ("planar", 2, 2)] + [("rotated", 3, 1), ("xzzx", 2, 3)] * t for name in DECODERS]
    return items


def cover(k, depth):
    """A cyclic sequence over range(k) containing every word of the given length (de Bruijn)."""
    a = [0] * k * depth
    seq = []

    stack = [(1, 1)]

    def db(t, p):
        # Recursion depth is at most ``depth``
        if t > depth:
            if depth % p == 0:
                seq.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    del stack
    return seq + seq[:depth - 1]


def ask(dec, q):
    era, syn = q
    try:
        op = dec.decode(None if era is None else era.copy(), syn.copy())
    except (ValueError, AssertionError) as e:
        return "refused " + type(e).__name__
    # The sign is known to be unreliable (KNOWN_FINDINGS: multiply:chain-double-sign)
    return bytes(np.asarray(op, dtype="u1")[:-1]), tuple(D.selection(dec))


def questions(ref, how, name):
    sites = [(t, q) for t in range(ref.rounds) for q in range(ref.n)]
    ers = [()]
    if how == "all":
        ers = [c for k in range(len(sites) + 1) for c in combinations(sites, k)]
    elif how == "single":
        ers += [(s,) for s in sites] + [tuple(sites)]
    elif how == "few":
        ers += [(sites[0],), tuple(sites[::2])]
    if name == "pymatching":
        ers = ers[:1] + ers[-1:]
    syns = range(1 << ref.bits)
    if how == "few" and ref.bits > 5:
        syns = [s for s in syns if bin(s).count("1") in (0, 1, 2, ref.bits)]
    out = [(ref.erasure(e) if e else None, ref.array(s)) for e in ers for s in syns]
    out.append((None, np.zeros((ref.rounds + 1, ref.ns), dtype=bool)))
    return out


def make(f, d, r, name, w):
    code = C.make(f, d, r)
    ww = weights(code, w)
    return code, lambda: D.quiet_build(DECODERS[name].from_code, code, None, weights=ww)


def histories(sh, item):
    f, d, r, depth, how, name, w = item
    code, new = make(f, d, r, name, w)
    ref = D.Ref([C.op(x) for x in code.stabilisers], code.n_data_qubits, r)
    qs = questions(ref, how, name)
    if depth == 3:
        qs = qs[:24] + qs[-1:] if len(qs) > 40 else qs
    before = [np.array(code.stabilisers).tobytes(), np.array(code.logical_ops).tobytes()]
    fresh = [ask(new(), q) for q in qs]
    dec = new()
    seq = cover(len(qs), depth)
    sh.count(states=len(qs), transitions=len(seq), refusals=sum(isinstance(x, str) for x in fresh))
    assert any(not isinstance(x, str) for x in fresh)
    for i, j in enumerate(seq):
        got = ask(dec, qs[j])
        hist = tuple(seq[max(0, i - depth + 1):i + 1])
        sh.case((item, hist))
        if not sh.check(got == fresh[j], "history:differs", lambda: f"after {[show(qs[h]) for h in hist[:-1]]} the answer to {show(qs[j])} is {got}, a new decoder says {fresh[j]}", (item, hist)):
            dec = new()
            if len(sh.viol) > 10:
                break
    sh.check(before == [np.array(code.stabilisers).tobytes(), np.array(code.logical_ops).tobytes()], "history:code", "decoding changed the code", item)


def show(q):
    return "e=" + ("-" if q[0] is None else str(np.argwhere(q[0]).tolist())) + " s=" + str(np.argwhere(q[1]).tolist())


def interleaved(sh, name):
    """Decoders of the same code, of different weights and sizes, used in turn."""
    systems = [("planar", 2, 1, 0), ("planar", 2, 1, 3), ("planar", 2, 2, 0), ("rotated", 2, 2, 0), ("toric", 2, 1, 0)]
    if name == "ufnw":
        systems = [s for s in systems if not s[3]]
    shared = {}
    refs, makers, qs, fresh = [], [], [], []
    for f, d, r, w in systems:
        code, new = make(f, d, r, name, w)
        code = shared.setdefault((f, d, r), code)
        new = (lambda code, w: lambda: D.quiet_build(DECODERS[name].from_code, code, None, weights=weights(code, w)))(code, w)
        ref = D.Ref([C.op(x) for x in code.stabilisers], code.n_data_qubits, r)
        q = [(None, ref.array(s)) for s in range(0, 1 << ref.bits, max(1, (1 << ref.bits) // 16))]
        if name != "pymatching":
            q += [(ref.erasure([(0, i)]), ref.array(s)) for i in range(2) for s in range(1, 1 << ref.bits, max(1, (1 << ref.bits) // 4))]
        refs.append(ref), makers.append(new), qs.append(q), fresh.append([ask(new(), x) for x in q])
    for a in range(len(systems)):
        for b in range(len(systems)):
            da, db = makers[a](), makers[b]()
            for i, x in enumerate(qs[a]):
                for j, y in enumerate(qs[b]):
                    sh.count(transitions=2)
                    sh.case((name, a, b, i, j))
                    ga, gb = ask(da, x), ask(db, y)
                    sh.check(ga == fresh[a][i] and gb == fresh[b][j], "history:interleaved", f"decoders of {systems[a]} and {systems[b]} disturb each other", (name, a, b, i, j))
    sh.count(states=len(systems))


def aliases(sh, name):
    """Changing arrays that were passed in or handed out does not reach into the decoder."""
    for f, d, r in [("planar", 2, 2), ("rotated", 3, 1), ("repetition", 5, 1)]:
        code, new = make(f, d, r, name, 0)
        ref = D.Ref([C.op(x) for x in code.stabilisers], code.n_data_qubits, r)
        dec = new()
        sh.count(states=1)
        for s in range(1 << ref.bits):
            for dt in (bool, "u1"):
                syn = ref.array(s, dt)
                era = ref.erasure([(0, s % ref.n)], dt) if name != "pymatching" and s & 1 else None
                want = ask(new(), (era, syn)) if s % 8 == 0 else None
                first = dec.decode(era, syn)
                kept = np.array(first).copy()
                syn2, era2 = syn.copy(), None if era is None else era.copy()
                syn[:] = 1 - syn if dt == "u1" else ~syn
                if era is not None:
                    era[:] = 1
                sh.check(np.array_equal(first, kept), "alias:input", "changing the syndrome afterwards changes the returned correction", (name, f, d, r, s))
                first[:] = 1
                again = dec.decode(era2, syn2)
                sh.count(transitions=2)
                sh.case((name, f, d, r, s, str(dt)))
                sh.check(np.array_equal(np.asarray(again)[:-1], kept[:-1]), "alias:output", "changing a returned correction changes later answers", (name, f, d, r, s))
                keep2 = np.array(again).copy()
                dec.decode(None, ref.array(0))
                sh.check(np.array_equal(again, keep2), "alias:later", "a later call changes an earlier answer", (name, f, d, r, s))
                if want is not None:
                    sh.check(want[0] == bytes(kept[:-1].astype("u1")), "history:differs", "answer differs from a new decoder", (name, f, d, r, s))


class Manager(SyndromeGraphManager):
    """A manager that announces what it is told to (the documented way to extend decoders)."""

    todo = None

    def update_for_decoding(self, erasure, syndrome):
        what, self.todo = self.todo, None
        if what is None:
            return SyndromeGraphUpdate.Nothing
        kind, value = what
        if kind == "weights":
            for comp, w in zip(self.sgraph.components_with_edges, value):
                comp.set_edge_weights(np.array(w))
            return SyndromeGraphUpdate.Weights
        self.sgraph = value()
        return SyndromeGraphUpdate.GraphAndWeights


def some_questions(ref, name):
    out = [(None, ref.array(s)) for s in range(1 << ref.bits)][:64 if ref.bits > 6 else None]
    if name != "pymatching":
        out += [(ref.erasure([(t, q)]), ref.array(s)) for t in range(ref.rounds) for q in range(ref.n) for s in (1, (1 << ref.bits) - 1, 3)]
    return out


def updates(sh, item):
    """New weights between questions: the answers are those of a decoder built with these weights."""
    f, d, r, name, thorough = item
    code = C.make(f, d, r)
    ref = D.Ref([C.op(x) for x in code.stabilisers], code.n_data_qubits, r)
    qs = some_questions(ref, name)
    first = weights(code, 1)

    def values(k):
        comps = SyndromeGraph.from_code(code, first).components_with_edges
        lv = (1.0, 2.0, 4.0)
        return [[lv[(k * (i + 1) + i * i + j + k) % 3] if k else 1.0 for i in range(len(c.edges))] for j, c in enumerate(comps)]

    def fresh(k):
        m = Manager(code, None, weights=first)
        for comp, w in zip(m.sgraph.components_with_edges, values(k)):
            comp.set_edge_weights(np.array(w))
        return D.quiet_build(DECODERS[name], m)
    want = {k: [ask(fresh(k), q) for q in qs] for k in range(4)}
    assert len({tuple(map(str, w)) for w in want.values()}) > 1 or f == "repetition", item
    for seq in product(range(4), repeat=3 if thorough else 2):
        for between in (0, 1):
            m = Manager(code, None, weights=first)
            dec = D.quiet_build(DECODERS[name], m)
            hist = []
            for k in (0,) + seq:
                m.todo = ("weights", values(k))
                hist.append(k)
                for i, q in enumerate(qs if k == seq[-1] or between else qs[-1:]):
                    sh.count(transitions=1)
                    sh.case((item, tuple(hist), between, i))
                    got = ask(dec, q)
                    if not sh.check(got == want[k][i if k == seq[-1] or between else len(qs) - 1],
                                    "updates:weights", lambda: f"after the weights {hist} the answer to {show(q)} is {got}", (item, tuple(hist), i)):
                        return
    sh.count(states=4)


def graphs(sh, item):
    """Another graph between questions (unweighted, weighted in several ways)."""
    f, d, r, name, thorough = item
    code = C.make(f, d, r)
    ref = D.Ref([C.op(x) for x in code.stabilisers], code.n_data_qubits, r)
    qs = some_questions(ref, name)
    kinds = (0, 1, 3, 4) if name != "ufnw" else (0,)
    stabs = code.stabilisers

    def graph(k):
        if k < 0:
            # Fewer errors: no Z errors at all
            n = code.n_data_qubits
            return SyndromeGraph(r, stabs, dict(pauli_x=np.ones(n), pauli_z=np.full(n, np.inf), measurement=np.ones(len(stabs))))
        return SyndromeGraph.from_code(code, weights(code, k))
    kinds += (-1,) if name != "ufnw" else ()

    def fresh(k):
        m = Manager(code, None)
        m.sgraph = graph(k)
        return D.quiet_build(DECODERS[name], m)
    want = {k: [ask(fresh(k), q) for q in qs] for k in kinds}
    for seq in product(kinds, repeat=3 if thorough else 2):
        m = Manager(code, None)
        dec = D.quiet_build(DECODERS[name], m)
        hist = []
        for k in seq:
            m.todo = ("graph", lambda: graph(k))
            hist.append(k)
            for i, q in enumerate(qs):
                sh.count(transitions=1)
                sh.case((item, tuple(hist), i))
                got = ask(dec, q)
                if not sh.check(got == want[k][i], "updates:graph", lambda: f"after the graphs {hist} the answer to {show(q)} is {got}, a new decoder says {want[k][i]}", (item, tuple(hist), i)):
                    return
    sh.count(states=len(kinds))


def finish(n, tier):
    assert n["refusals"] > 20 and n["transitions"] > 50000, n
    return {}
