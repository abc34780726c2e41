"""P16: decoding returns a correction that explains the syndrome."""
from itertools import combinations, product

import numpy as np

from .. import codes as C
from .. import dec as D
from .p15 import DECODERS

LEVEL = "model_checking"
RULE = ("state = (decoding graph with weights, decoder); transition = one decoded (syndrome, erasure); every graph on up to four vertices (all edges and dangling edges), "
        "every syndrome, every erasure on the smaller ones, weights from a small set; every syndrome of the small code families; "
        "non-trivial = distinct (graph, decoder, syndrome, erasure)")
ASSUMPTIONS = ["PyMatching and fusion-blossom themselves are trusted libraries; what is decided is their use"]
CHUNK = 1


PARTS = {("rotated", 3, 2): 16, ("xzzx", 3, 2): 16, ("shor", 9, 2): 16, ("repetition", 7, 2): 4, ("five", 5, 3): 4, ("planar", 2, 4): 16, ("rotated", 2, 5): 8, ("toric", 2, 2): 16}


def plan(tier):
    t = tier == "thorough"
    items = [("graphs", (v, 1, lo, "weights")) for v in (1, 2, 3) for lo in range(1, 1 << (v + v * (v - 1) // 2), 8)]
    items += [("graphs", (v, 2, lo, "few")) for v in (1, 2, 3) for lo in range(1, 1 << (v + v * (v - 1) // 2), 8)]
    items += [("graphs", (4, 1, lo, "all" if t else "few")) for lo in range(1, 1 << 10, 16)]
    items += [("graphs", (3, 3, lo, "none")) for lo in range(1, 64, 4)] * t
    items += [("graphs", (4, 2, lo, "none")) for lo in range(1, 1 << 10, 8)] * t
    items += [("graphs", (5, 1, lo, "none")) for lo in range(1, 1 << 15, 128)] * t
    fams = [("repetition", 3, 1), ("repetition", 3, 3), ("repetition", 5, 2), ("planar", 2, 1), ("planar", 2, 2), ("planar", 2, 3), ("rotated", 2, 3), ("rotated", 3, 1), ("xzzx", 3, 1),
            ("toric", 2, 1), ("planar", 3, 1), ("five", 5, 1), ("five", 5, 2), ("shor", 9, 1)]
    fams += [("rotated", 3, 2), ("xzzx", 3, 2), ("toric", 2, 2), ("repetition", 5, 4), ("repetition", 7, 2), ("shor", 9, 2), ("five", 5, 3), ("planar", 2, 4), ("rotated", 2, 5)] * t
    items += [("family", (f, d, r, name, mode, k)) for f, d, r in fams for name in DECODERS for mode in ("plain", "weighted", "erased", "uneven", "zero") if name != "ufnw" or mode in ("plain", "erased") for k in range(PARTS.get((f, d, r), 1))]
    items += [("refused", name) for name in DECODERS]
    items += [("multi", (v, part, parts, t)) for v, parts in ((1, 1), (2, 1), (3, 24)) for part in range(parts)]
    return items


def spans(ref, ers):
    """Basis of the syndromes the erased qubits alone can cause."""
    return C.reduce_basis(m for k, m in ref.mask.items() if k[0] != "M" and (k[2], k[1]) in ers and m)


def judge(sh, dec, name, ref, syn, ers, case, basis=None, styles=0):
    """Decode one (syndrome, erasure) and decide whether the result is right."""
    sh.count(transitions=1)
    arr = ref.array(syn, "u1" if styles & 1 else bool)
    era = ref.erasure(ers, "u1" if styles & 2 else bool) if ers or styles & 4 else None
    a0, e0 = arr.copy(), None if era is None else era.copy()
    sh.case(case)
    refusable = bool(ers) and name == "pymatching"
    try:
        got = dec.decode(era, arr)
    except ValueError as e:
        sh.count(refused=1)
        return sh.check(refusable or not ref.solvable(syn), "decode:refused", f"a decodable syndrome was refused: {e}", case)
    if not sh.check(ref.solvable(syn), "decode:impossible", "a syndrome that no error can cause was decoded silently", case):
        return False
    ok = sh.check(np.array_equal(arr, a0) and arr.dtype == a0.dtype and (era is None or np.array_equal(era, e0)), "decode:inputs", "the given syndrome or erasure was modified", case)
    sel = D.selection(dec)
    ok &= sh.check(ref.syndrome(sel) == syn, "decode:syndrome", f"chose {sel}, which causes another syndrome", case)
    bad = [k for k in sel if ref.weight[k] == np.inf and (k[2], k[1]) not in ers]
    ok &= sh.check(not bad, "decode:impossible-error", f"chose impossible errors {bad}", case)
    op = C.op(got)
    ok &= sh.check(len(got) == 2 * ref.n + 1 and op == ref.operator(sel), "decode:operator", f"the correction {op} is not the product of the chosen errors {sel}", case)
    total = [0] * ref.ns
    for b in range(ref.bits):
        total[b % ref.ns] ^= syn >> b & 1
    ok &= sh.check([C.anti(op, s) for s in ref.stabs] == total, "decode:correction", f"the correction {op} does not undo the syndrome", case)
    if ers and C.residue(syn, basis if basis is not None else spans(ref, ers)) == 0:
        sh.count(explained=1)
        out = [k for k in sel if k[0] == "M" or (k[2], k[1]) not in ers]
        ok &= sh.check(not out, "decode:erasure", f"the erased qubits explain the syndrome, but {out} were chosen", case)
    return ok


def graph(v, bits):
    """Generators (one Z per incident edge) of the graph with the given edges."""
    cand = list(combinations(range(v), 2)) + [(i,) for i in range(v)]
    edges = [e for i, e in enumerate(cand) if bits >> i & 1]
    rows = np.zeros((v, 2 * len(edges) + 1), dtype="u1")
    for q, e in enumerate(edges):
        for i in e:
            rows[i, len(edges) + q] = 1
    return edges, list(rows)


def graphs(sh, item):
    v, r, lo, how = item
    step = {1: 8, 2: 8, 3: 8 if how != "none" else 4, 4: 16 if r == 1 else 8, 5: 128}[v]
    for bits in range(lo, min(lo + step, 1 << (v + v * (v - 1) // 2))):
        edges, rows = graph(v, bits)
        n = len(edges)
        stabs = [C.op(x) for x in rows]
        sites = [(t, q) for t in range(r) for q in range(n)]
        if how == "weights" or how == "all":
            erasures = [tuple(c) for k in range(len(sites) + 1) for c in combinations(sites, k)]
        elif how == "few":
            erasures = [()] + [(s,) for s in sites] + [tuple(sites)]
        else:
            erasures = [()]
        ws = [None]
        if how == "weights":
            ws += [dict(pauli_x=np.array(p), pauli_z=1.0, measurement=1.0) for p in (product((1.0, 3.0), repeat=n) if n <= 4 else [tuple(1.0 + 2 * ((i * a + b) % 3 == 0) for i in range(n)) for a, b in ((1, 0), (1, 1), (2, 2))])]
            ws += [dict(pauli_x=np.array(p), pauli_z=1.0, measurement=1.0) for p in product((0.0, 2.0), repeat=n) if n <= 4]
        else:
            m = np.array([1.0 + 0.25 * i for i in range(len(rows))])
            ws += [dict(pauli_x=1.0 + 0.5 * ((np.arange(n) * a + b) % 5), pauli_z=1.0, measurement=m) for a, b in ((2, 0), (3, 1))]
            if r > 1 or n > 1:
                inf = np.ones(n)
                inf[0] = np.inf
                ws.append(dict(pauli_x=inf, pauli_z=1.0, measurement=m))
                ws.append(dict(pauli_x=1.0, pauli_z=np.inf, measurement=np.inf))
        for i, w in enumerate(ws):
            ref = D.Ref(stabs, n, r, None if w is None else lambda k: (np.ones(n) * w["pauli_x"])[k[1]] if k[0] == "X" else (np.ones(n) * w["pauli_z"])[k[1]] if k[0] == "Z" else
                        (np.ones(len(rows)) * w["measurement"])[k[1]])
            bases = {e: spans(ref, e) for e in erasures}
            plain_w = w is None or (np.ones(n) * w["pauli_x"]).min() > 0
            for name, cls in DECODERS.items():
                if w is not None and name == "ufnw":
                    continue
                with sh.guard("graphs", (item, bits, i, name)):
                    dec = D.on_graph(cls, rows, r, w)
                    sh.count(states=1)
                    if not any(c for c in dec.synmgr.sgraph.components_with_edges):
                        continue
                    for j, e in enumerate(erasures if how != "few" or i < 2 else [()]):
                        if e and name == "pymatching" and len(e) > 1:
                            continue
                        for syn in range(1 << ref.bits):
                            case = (item, edges, i, name, syn, e)
                            if e and (not plain_w or any(ref.weight["X", q, t] == np.inf for t, q in e)):
                                # A possible error of weight zero is as good as an erased one
                                b = {}
                                if syn and C.residue(syn, bases[e]) == 0:
                                    continue
                            else:
                                b = bases[e]
                            if not judge(sh, dec, name, ref, syn, e, case, b, (j + syn) & 7):
                                break
                    sh.count(graphs=1)


def weights_for(code, n):
    return dict(pauli_x=1.0 + 0.25 * (np.arange(n) * 3 % 7), pauli_z=2.0 + 0.25 * (np.arange(n) * 5 % 6), measurement=1.5 + 0.125 * np.arange(code.n_stabgens))


MAGNITUDES = (1.0, 1e-9, 1e-3, 34.5, 1e-16, 1e6)


def uneven(code, n):
    """Weights that differ by many orders of magnitude."""
    m = np.array(MAGNITUDES)
    return dict(pauli_x=m[np.arange(n) % 6], pauli_z=m[(np.arange(n) * 5 + 1) % 6], measurement=m[(np.arange(code.n_stabgens) + 2) % 6])


def zero(code, n):
    """Everything is as likely as not."""
    return dict(pauli_x=np.zeros(n), pauli_z=np.zeros(n), measurement=np.zeros(code.n_stabgens))


def family(sh, item):
    f, d, r, name, mode, part = item
    parts = PARTS.get((f, d, r), 1)
    code = C.make(f, d, r)
    stabs = [C.op(s) for s in code.stabilisers]
    n = code.n_data_qubits
    w = {"weighted": weights_for, "uneven": uneven, "zero": zero}.get(mode, lambda *a: None)(code, n)
    ref = D.Ref(stabs, n, r, None if w is None else lambda k: w[{"X": "pauli_x", "Z": "pauli_z", "M": "measurement"}[k[0]]][k[1]])
    with sh.guard("family", item):
        dec = D.quiet_build(DECODERS[name].from_code, code, None, weights=w)
        sh.count(states=1)
        if mode == "erased":
            if name == "pymatching":
                return
            sites = [(t, q) for t in range(r) for q in range(n)]
            top = 2 if ref.bits + len(sites) > 12 else len(sites)
            erasures = [tuple(c) for k in range(1, top + 1) for c in combinations(sites, k)] + [tuple(sites)]
        else:
            erasures = [()]
        syns = range(1 << ref.bits)
        if mode == "erased" and ref.bits > 6:
            # All syndromes of the erased qubits and of those plus one more error
            syns = None
        if len(erasures) == 1:
            syns = syns[part::parts]
        else:
            erasures = erasures[part::parts]
        for j, e in enumerate(erasures):
            basis = spans(ref, e) if e else None
            todo = syns
            if todo is None:
                inner = {0}
                for m in (basis or {}).values() if len(basis or {}) <= 4 else list(basis.values())[:4]:
                    inner |= {x ^ m for x in inner}
                todo = sorted(inner | {x ^ m for x in list(inner)[:2] for m in ref.mask.values()})
            for syn in todo:
                if not judge(sh, dec, name, ref, syn, e, (item, syn, e), basis, (j + syn) & 7):
                    if len(sh.viol) > 20:
                        return


def multi(sh, item):
    """The union-find stages on their own, on every multigraph: edges and dangling edges may be doubled."""
    from plaquette.decoders import unionfind_decoder as U
    from plaquette.decoders import unionfind_erasure as E

    class Choosing(U.UnionFind):
        choose_growth_increment_enabled = True

    v, part, parts, thorough = item
    cand = list(combinations(range(v), 2)) + [(i,) for i in range(v)]
    for number, counts in enumerate(product(range(3), repeat=len(cand))):
        if number % parts != part or not 0 < sum(counts) <= (8 if thorough else 6):
            continue
        edges = [e for e, c in zip(cand, counts) for _ in range(c)]
        if number & 1:
            edges = edges[::2] + edges[1::2]
        n = len(edges)
        masks = [sum(1 << i for i in e) for e in edges]
        sets = [0]  # the syndrome of every set of edges
        for m in masks:
            sets += [x ^ m for x in sets]
        caused = sorted(set(sets))

        def settled(what, got, allowed, syn, case):
            sh.case(case)
            sh.count(transitions=1)
            chosen = [i for i in range(n) if got[i]]
            sh.check(len(got) == n and set(chosen) <= set(allowed), f"multi:{what}:outside", f"chose {chosen} among {list(allowed)} of {edges}", case)
            s = 0
            for i in chosen:
                s ^= masks[i]
            sh.check(s == syn, f"multi:{what}:syndrome", f"chose {chosen} of {edges}, which cause another syndrome", case)

        bits = lambda s: np.array([bool(s >> i & 1) for i in range(v)])
        with sh.guard("multi", edges):
            peel = E.ErasureDecoder(E.Graph(v, edges))
            sh.count(states=1)
            for er in range(1 << n):
                erased = [i for i in range(n) if er >> i & 1]
                inside = {0}
                for i in erased:
                    inside |= {x ^ masks[i] for x in inside}
                for syn in inside:
                    settled("peel", peel.decode(erased, bits(syn)), erased, syn, (edges, erased, syn))
        erasures = [e for e in range(1 << n) if n <= 4 or bin(e).count("1") in (0, 1, n)]
        w = np.array([(1.0, 2.5, 4.0)[(2 * i + number) % 3] for i in range(n)])
        for name, cls, ws in (("nw", U.UnionFindNoWeights, None), ("uf", U.UnionFind, None), ("uf-w", U.UnionFind, w), ("uf-back", U.UnionFind, "back"), ("choosing", Choosing, w), ("choosing0", Choosing, None)):
            with sh.guard("multi", (edges, name)):
                dec = U.UnionFindDecoder(cls, E.Graph(v, edges))
                raw = U.UnionFindDecoder(cls, E.Graph(v, edges), skip_erasure_decoder=True)
                for d in (dec, raw):
                    d.set_weights(w if ws is not None else None)
                    if isinstance(ws, str):
                        d.set_weights(None)
                sh.count(states=1)
                for er in erasures:
                    erased = [i for i in range(n) if er >> i & 1]
                    for syn in caused:
                        case = (edges, name, erased, syn)
                        settled(name, dec.decode(erased, bits(syn)), range(n), syn, case)
                        grown = raw.decode(erased, bits(syn))
                        sh.check(set(erased) <= set(grown), f"multi:{name}:erased", f"the erasure {erased} is not part of the clusters {grown}", case)
                        inside = C.reduce_basis(masks[i] for i in grown)
                        sh.check(C.residue(syn, inside) == 0, f"multi:{name}:grown", f"the clusters {grown} of {edges} cannot explain the syndrome", case)


def refused(sh, name):
    """Ill-formed syndromes and erasures are refused."""
    code = C.make("planar", 2, 2)
    dec = D.quiet_build(DECODERS[name].from_code, code, None)
    ok = np.zeros((2, 4), dtype=bool)
    era = np.zeros((2, 5), dtype=bool)
    for what, (e, s) in {"rounds": (None, ok[:1]), "rounds3": (None, np.zeros((3, 4), bool)), "gens": (None, ok[:, :3]), "flat": (None, ok.ravel()), "transposed": (None, ok.T),
                         "float": (None, ok.astype(float)), "int": (None, ok.astype(int)), "erasure-rounds": (era[:1], ok), "erasure-qubits": (era[:, :4], ok),
                         "erasure-float": (era.astype(float), ok), "erasure-transposed": (era.T, ok)}.items():
        sh.case((name, what))
        try:
            dec.decode(e, s)
        except (ValueError, AssertionError, TypeError, IndexError):
            sh.count(refused=1)
        else:
            sh.count(accepted=1)
            sh.check(what in ("float", "int", "erasure-float"), "decode:malformed", f"malformed input ({what}) was accepted", (name, what))
        ref = D.Ref([C.op(x) for x in code.stabilisers], 5, 2)
        judge(sh, dec, name, ref, 5, (), (name, what, "after"))


def finish(n, tier):
    assert n["refused"] > 500 and n["explained"] > 5000, n
    return {}
