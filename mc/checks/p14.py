"""P14: the decoding graph says exactly which error flips which syndrome bits."""
from itertools import combinations, product

import numpy as np

from plaquette.codes import LatticeCode
from plaquette.pauli import string_to_pauli
from plaquette.syngraph import QubitErrorEdge, StabilizerErrorEdge, SyndromeGraph

from .. import codes as C

LEVEL = "model_checking"
RULE = ("state = a decoding graph (code, number of rounds, weights); transition = one error, one syndrome bit, one erasure or one decoder result traced "
        "through the graph and its components; all codes on two qubits with up to three generators, all families up to the stated size, all assignments of "
        "weights from a small set to small graphs; non-trivial = distinct graph or distinct question")
ASSUMPTIONS = ["reference: symplectic algebra on integers (mc/codes.py)"]
CHUNK = 1


def plan(tier):
    t = tier == "thorough"
    items = [("family", (f, d, r)) for f, d in C.sized("thorough") for r in (1, 2, 3) + ((5,) if d <= 5 or t else ()) if d <= 7 or t]
    items += [("family", x) for x in [("repetition", 3, 12), ("rotated", 2, 17), ("planar", 3, 11), ("rotated", 3, 33), ("repetition", 131, 2), ("rotated", 11, 2), ("planar", 8, 2)]]
    items += [("small", (g, r)) for g in range(15) for r in (1, 2)]
    items += [("weights", (k, True)) for k in range(len(WCODES))]
    items += [("sparse", (f, d)) for f, d in [("repetition", 3), ("planar", 2), ("rotated", 3), ("planar", 3), ("xzzx", 3), ("toric", 2), ("toric", 3)]]
    return items


def error_ops(n):
    """The elementary errors: X and Z on each qubit."""
    return [("X", q, (1 << q, 0)) for q in range(n)] + [("Z", q, (0, 1 << q)) for q in range(n)]


def reference(stabs, n, rounds, weight):
    """{error: (syndrome bits, weight)}; an error is ('X'|'Z', qubit, round) or ('M', generator, round)."""
    out = {}
    for t in range(rounds):
        for k, q, o in error_ops(n):
            out[k, q, t] = frozenset((t, i) for i, s in enumerate(stabs) if C.anti(o, s))
    for t in range(1, rounds):
        for i in range(len(stabs)):
            out["M", i, t] = frozenset({(t - 1, i), (t, i)})
    return {k: (v, weight(k)) for k, v in out.items()}


def key_of(e):
    if isinstance(e, QubitErrorEdge):
        return e.pauli_str, int(np.asarray(e.qubit_idx).ravel()[0]), e.time_step
    return "M", e.stabgen_idx, e.time_step


def judge(sh, stabs, n, rounds, g, weight, case, deep=True):
    """Compare a SyndromeGraph with the reference; ``weight(error)`` (nan = unweighted)."""
    ref = reference(stabs, n, rounds, weight)
    site = lambda v: (v.time_step, v.stabgen_idx)
    sh.count(states=1, transitions=len(ref))
    sh.case(case)
    sh.check(sorted(map(site, g.vertices)) == [(t, i) for t in range(rounds) for i in range(len(stabs))],
             "graph:vertices", "not one vertex per syndrome bit", case)
    sh.check([[site(v) for v in row] for row in g.vertices_at_time] == [[(t, i) for i in range(len(stabs))] for t in range(rounds)],
             "graph:vertices-at-time", "vertices_at_time", case)
    sh.check(all(v.vertex_idx == i for i, v in enumerate(g.vertices)) and all(e.edge_idx == i for i, e in enumerate(g.edges)),
             "graph:index", "indices do not match positions", case)
    got = {key_of(e): e for e in g.edges}
    if not sh.check(len(got) == len(g.edges) and got.keys() == ref.keys(), "graph:errors",
                    f"errors {sorted(ref.keys() ^ got.keys())} missing or unexpected", case):
        return
    for k, (sites, w) in ref.items():
        e = got[k]
        sh.check(len(e.vertices) == len(sites) and {site(v) for v in e.vertices} == sites, "graph:edge",
                 f"error {k} flips {[site(v) for v in e.vertices]}, expected {sorted(sites)}", case)
        gw = float(np.asarray(e.weight).ravel()[0])
        sh.check((np.isnan(w) and np.isnan(gw)) or gw == w or abs(gw - w) < 1e-12 * abs(w), "graph:weight", f"error {k} has weight {gw}, expected {w}", case)
    # Enabled: finite weight, and of parallel errors exactly one with the least weight
    parallel = {}
    for k, (sites, w) in ref.items():
        if sites:
            parallel.setdefault(sites, []).append(k)
    enabled = {}
    for sites, ks in parallel.items():
        on = [k for k in ks if got[k].enabled]
        finite = [k for k in ks if not ref[k][1] == np.inf]
        if not finite:
            sh.check(not on, "graph:impossible", f"impossible errors {on} are enabled", case)
            continue
        sh.check(len(on) == 1 and (np.isnan(ref[on[0]][1]) or ref[on[0]][1] == min(ref[k][1] for k in finite)), "graph:parallel",
                 f"of the parallel errors {[(k, ref[k][1]) for k in ks]}, {on} are enabled", case)
        for k in on:
            enabled[k] = sites
    # Adjacency
    for v in g.vertices:
        want = {k for k, s in enabled.items() if site(v) in s}
        sh.check({key_of(e) for e in v.edges} == want and sorted(site(u) for u in v.neighbours)
                 == sorted(next(iter(enabled[k] - {site(v)})) for k in want if len(enabled[k]) == 2),
                 "graph:adjacency", f"edges or neighbours of {site(v)}", case)
    # Connected components
    comp_of = {}
    label = {site(v): i for i, v in enumerate(g.vertices)}
    parent = list(range(len(g.vertices)))

    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a
    for s in enabled.values():
        ids = [label[x] for x in s]
        if len(ids) == 2:
            parent[find(ids[0])] = find(ids[1])
    classes = {}
    for x, i in label.items():
        classes.setdefault(find(i), set()).add(x)
    seen_v, seen_e = [], []
    idx_site = {v.vertex_idx: site(v) for v in g.vertices}
    idx_key = {e.edge_idx: key_of(e) for e in g.edges}
    for comp in g.components:
        vs = [idx_site[int(i)] for i in comp.parent_vertex_idx]
        es = [idx_key[int(i)] for i in comp.parent_edge_idx]
        seen_v += vs
        seen_e += es
        sh.check(comp.n_vertices == len(vs) and set(vs) in classes.values(), "component:vertices", f"component {vs}", case)
        sh.check(len(comp.edges) == len(es) and all(enabled.get(k) == {vs[i] for i in ends} and len(ends) == len(enabled[k])
                                                      for k, ends in zip(es, comp.edges)), "component:edges",
                 f"edges {list(zip(es, comp.edges))} of component {vs}", case)
        sh.check(bool(comp.has_dangling_edges) == any(len(enabled.get(k, ())) == 1 for k in es), "component:dangling", f"component {vs}", case)
        if es:
            w = np.array([ref[k][1] for k in es])
            sh.check(np.shape(comp.edge_weights) == w.shape and np.allclose(comp.edge_weights, w, rtol=1e-12, equal_nan=True), "component:weights",
                     f"weights {comp.edge_weights} instead of {w}", case)
    sh.check(sorted(seen_v) == sorted(label) and sorted(seen_e) == sorted(enabled), "component:partition", "components do not partition the graph", case)
    sh.check([id(c) for c in g.components_with_edges] == [id(c) for c in g.components if len(c.edges)], "component:with-edges", "components_with_edges", case)
    st = g.get_statistics()
    size = lambda n_: sum(len(s) == n_ for s, _ in ref.values())
    sh.check((st["n_vertices"], st["n_edges"], st["n_2_edges"], st["n_1_edges"], st["n_0_edges"], st["n_comp"], st["n_comp_nontrivial"], st["n_comp_trivial"],
              st["n_edges_qubit"], st["n_edges_stab"]) ==
             (len(g.vertices), len(ref), size(2), size(1), size(0), len(classes), len(g.components_with_edges), len(classes) - len(g.components_with_edges),
              2 * n * rounds, len(stabs) * (rounds - 1)) and sum(st["n_vertices_in_comp"]) == sum(c.n_vertices for c in g.components_with_edges)
             and sum(st["n_edges_in_comp"]) == len(enabled), "graph:statistics", f"{st}", case)
    import re
    text = g.format_statistics()
    nums = [int(v) for v in re.findall(r"(?<![\w.])\d+(?![\w.-])", re.sub(r"\[[^\]]*\]", "", text))]
    sh.check(all(nums.count(int(v)) >= list(c).count(v) for c in [[w for w in st.values() if not isinstance(w, list)]] for v in c), "graph:statistics-text", f"{text!r} does not show {st}", case)
    if deep:
        flow(sh, g, ref, enabled, idx_site, idx_key, rounds, len(stabs), n, case)


def flow(sh, g, ref, enabled, idx_site, idx_key, rounds, ns, n, case):
    """Syndromes, erasures and results pass through the components unchanged."""
    inputs = [()] + [(i,) for i in range(rounds * ns)] + [tuple(range(rounds * ns)), tuple(range(0, rounds * ns, 2))] + ["none"]
    for inp in inputs:
        syn = None if inp == "none" else np.zeros((rounds, ns), dtype="u1" if len(inp) % 2 else bool)
        if syn is not None:
            syn.ravel()[list(inp)] = 1
        g.set_syndrome(syn)
        want = set() if inp == "none" else {divmod(i, ns) for i in inp}
        on = [idx_site[int(c.parent_vertex_idx[i])] for c in g.components for i in np.where(c.syndrome)[0]]
        sh.check(sorted(on) == sorted(want), "flow:syndrome", f"syndrome {sorted(want)} arrives as {on}", case)
        sh.count(transitions=1)
    inputs = [()] + [(i,) for i in range(rounds * n)] + [tuple(range(rounds * n)), tuple(range(1, rounds * n, 3)), "none"]
    for inp in inputs:
        er = None if inp == "none" else np.zeros((rounds, n), dtype="u1" if len(inp) % 2 else bool)
        if er is not None:
            er.ravel()[list(inp)] = 1
        g.set_erasure(er)
        want = set() if inp == "none" else {(k, i % n, i // n) for i in inp for k in "XZ"}
        # An erased error is known through itself or through the parallel one that stands for it.
        groups = {enabled[k]: k for k in enabled}
        must = {k for k in enabled if k in want}
        may = must | {groups[ref[k][0]] for k in want if ref[k][0] in groups}
        on = {idx_key[int(c.parent_edge_idx[i])] for c in g.components_with_edges for i in np.where(c.edge_erased)[0]}
        sh.check(must <= on <= may, "flow:erasure", f"erasure of {sorted(want)} arrives as {sorted(on)}", case)
        sh.count(transitions=1)
    g.set_syndrome(None)
    g.set_erasure(None)
    # Decoder results: every single enabled edge, all of them, and pairs for small graphs
    place = {}
    for ci, c in enumerate(g.components_with_edges):
        for i, e in enumerate(c.parent_edge_idx):
            place[idx_key[int(e)]] = (ci, i)
    keys = sorted(place)
    sets = [()] + [(k,) for k in keys] + ([tuple(p) for p in combinations(keys, 2)] if len(keys) <= 40 else []) + [tuple(keys), tuple(keys[::2])]
    for sel in sets:
        res = [np.zeros(len(c.edges), dtype=bool) for c in g.components_with_edges]
        for k in sel:
            ci, i = place[k]
            res[ci][i] = True
        comb = g.combine_decoding_results(res)
        sh.check({idx_key[int(i)] for i in np.where(comb)[0]} == set(sel), "flow:combine", f"selection {sel}", case)
        for c, r in zip(g.components_with_edges, res):
            c.set_edge_decoder_results(r)
        g.update_decoder_results()
        x = z = 0
        for k, q, *_ in sel:
            if k == "X":
                x ^= 1 << q
            elif k == "Z":
                z ^= 1 << q
        frame = C.op(g.result_as_pauli_frame()[:-1])
        ops = g.result_as_error_op_selection()
        tot = [0, 0]
        for i in np.where(ops)[0]:
            a, b = C.op(g.error_ops[int(i)][:-1])
            tot[0] ^= a
            tot[1] ^= b
        sh.check(frame == (x, z) and tuple(tot) == (x, z), "flow:result", f"selection {sel} gives the correction {frame}, expected {(x, z)}", case)
        sh.count(transitions=1)
    ok = [np.zeros(len(c.edges), dtype=bool) for c in g.components_with_edges]
    for bad in [ok[:-1], ok + [np.zeros(1, dtype=bool)], [np.append(ok[0], False)] + ok[1:], [ok[0][:-1]] + ok[1:]] if ok and len(ok[0]) > 2 else []:
        try:
            g.combine_decoding_results(bad)
        except Exception:  # noqa: BLE001
            sh.count(refused=1)
        else:
            sh.fail("flow:refused", "results that do not fit the parts were combined", case)
    for c in g.components_with_edges:
        c.set_edge_decoder_results(np.zeros(len(c.edges), dtype=bool))
    if g.components_with_edges:
        try:
            g.result_as_pauli_frame()
            sh.fail("flow:stale", "results that were not collected are not reported", case)
        except ValueError:
            pass


def distinct_weights(stabs, n, rounds):
    """A weight for every error that tells all of them apart."""
    px = np.array([1 + 0.37 * q for q in range(n)])
    pz = np.array([2.05 + 0.41 * ((7 * q) % n) for q in range(n)])
    m = np.array([0.5 + 0.23 * i for i in range(len(stabs))])
    return px, pz, m


def weight_fn(px, pz, m):
    return lambda k: float({"X": px, "Z": pz, "M": m}[k[0]][k[1]])


def family(sh, item):
    f, d, r = item
    code = C.make(f, d, r)
    stabs = [C.op(s) for s in code.stabilisers]
    n = code.n_data_qubits
    hyper = any(sum(C.anti(o, s) for s in stabs) > 2 for _, _, o in error_ops(n))
    if hyper:
        try:
            SyndromeGraph.from_code(code, None)
            sh.fail("graph:hyper", "a code with hyperedges was accepted", item)
        except ValueError:
            sh.count(refused=1)
        sh.case(item)
        return
    deep = d <= 3
    judge(sh, stabs, n, r, SyndromeGraph.from_code(code, None), lambda k: np.nan, (item, "unweighted"), deep)
    px, pz, m = distinct_weights(stabs, n, r)
    judge(sh, stabs, n, r, SyndromeGraph.from_code(code, dict(pauli_x=px, pauli_z=pz, measurement=m)), weight_fn(px, pz, m), (item, "distinct"), False)
    one = np.ones(n)
    for a, b, c in ((1.5, np.inf, 2.0), (1.0, 2.0, np.inf), (np.inf, 1.0, 0.5), (np.inf, np.inf, 1.0), (np.nan, np.nan, np.nan), (0.0, 3.0, 1.0)):
        g = SyndromeGraph(r, code.stabilisers, dict(pauli_x=a, pauli_z=b, measurement=c))
        judge(sh, stabs, n, r, g, weight_fn(one * a, one * b, np.ones(len(stabs)) * c), (item, a, b, c), False)
        try:
            g.set_edge_weights(pauli_x=1.0, pauli_z=1.0, measurement=1.0)
            sh.fail("graph:late-weights", "weights of a finished graph were changed silently", item)
        except ValueError:
            pass


def small(sh, item):
    """Every code with up to three generators on two qubits (any operators)."""
    g, r = item
    A = [(x, z) for x in range(4) for z in range(4)]
    lists = [[A[g + 1]]] + [[A[g + 1], b] for b in A] + [[A[g + 1], b, c] for b in A for c in A]
    for stabs in lists:
        rows = [np.array([o[0] & 1, o[0] >> 1, o[1] & 1, o[1] >> 1, 0], dtype="u1") for o in stabs]
        case = (item, stabs)
        if any(sum(C.anti(o, s) for s in stabs) > 2 for _, _, o in error_ops(2)):
            try:
                SyndromeGraph(r, rows, None)
                sh.fail("graph:hyper", "hyperedges were accepted", case)
            except ValueError:
                sh.count(refused=1)
            continue
        with sh.guard("small", case):
            judge(sh, stabs, 2, r, SyndromeGraph(r, rows, None), lambda k: np.nan, case)


WCODES = [(["ZZI", "IZZ"], 1), (["ZZI", "IZZ"], 2), (["XXX"], 2), (["ZI", "IZ", "ZZ"], 1), (["XZ", "ZX"], 1), (["ZZZ"], 1), (["ZI"], 2), (["XX", "ZZ"], 2)]


def weights(sh, item):
    """All assignments of weights from a small set to a small graph."""
    k, t = item
    names, r = WCODES[k]
    rows = [string_to_pauli(s) for s in names]
    stabs = [C.op(x[:-1]) for x in rows]
    n = len(names[0])
    m = len(names) if r > 1 else 0
    levels = (0.0, 1.0, 1.000001, 2.5, np.inf) if 2 * n + m <= 4 else (1.0, 1.000001, np.inf) if 2 * n + m <= 7 else (1.0, np.inf)
    for ws in product(levels, repeat=2 * n + m):
        px, pz = np.array(ws[:n]), np.array(ws[n:2 * n])
        mm = np.array(ws[2 * n:]) if m else np.ones(len(names))
        case = (item, ws)
        with sh.guard("weights", case):
            judge(sh, stabs, n, r, SyndromeGraph(r, rows, dict(pauli_x=px, pauli_z=pz, measurement=mm)), weight_fn(px, pz, mm), case, False)


def sparse(sh, item):
    """Each single error impossible, and all others of one kind impossible."""
    f, d = item
    code = C.make(f, d, 2)
    stabs = [C.op(s) for s in code.stabilisers]
    n = code.n_data_qubits
    base = distinct_weights(stabs, n, 2)
    for kind in range(3):
        for q in range(len(base[kind])):
            for only in (False, True):
                w = [b.copy() for b in base]
                if only:
                    keep = w[kind][q]
                    w[kind][:] = np.inf
                    w[kind][q] = keep
                else:
                    w[kind][q] = np.inf
                case = (item, kind, q, only)
                with sh.guard("sparse", case):
                    g = SyndromeGraph.from_code(code, dict(pauli_x=w[0], pauli_z=w[1], measurement=w[2]))
                    judge(sh, stabs, n, 2, g, weight_fn(*w), case, False)


def finish(n, tier):
    assert n["refused"] > 10 and n["states"] > 1000, n
    return {}
