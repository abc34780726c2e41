"""P21: an experiment configuration builds exactly the experiment it describes."""
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
from contextlib import contextmanager
from itertools import combinations, product

import numpy as np
import plaquette
import plaquette.frontend as F
from plaquette.circuit import Circuit
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.device import AbstractSimulator

from .. import codes as C, core
from .p14 import key_of
from .p15 import DECODERS
from .p20 import flat, gates_csv, same

LEVEL = "model_checking"
RULE = ("state = (configuration, what has been built from it); transitions = loading, updating, saving and loading back, building; every combination of entries from a grid and every sequence of updates up to the depth is executed; "
        "what was built is compared with a description worked out from the configuration alone; non-trivial = distinct configuration or sequence")
ASSUMPTIONS = ["generators, edges and indices of the codes themselves are those of the code constructors (decided by P10)",
               "a missing `sample` for gate errors means that they are not sampled (pinned by the unit tests)",
               "the distribution of gaussian errors is not judged beyond range, spread and origin of the random numbers"]
CHUNK = 1
NAMES = {"RotatedPlanarCode": "rotated", "PlanarCode": "planar", "ToricCode": "toric", "RepetitionCode": "repetition", "FiveQubitCode": "five", "ShorCode": "shor"}
FIXED = ("FiveQubitCode", "ShorCode")
QKEYS = ("X", "Y", "Z", "erasure", "measurement")
ONE, TWO = ("H", "R", "M"), ("CX", "CZ")
DEC = dict(PyMatchingDecoder="pymatching", UnionFindDecoder="uf", UnionFindNoWeights="ufnw", FusionBlossomDecoder="fusion")


# ---------------------------------------------------------------- what a configuration means
QCSV = {"X": {0: .011, 2: .013, 3: .5}, "Y": {1: .02}, "Z": {0: .031, 1: .032, 2: .033}, "erasure": {2: .04, 4: .6}, "measurement": {3: .051, 4: .052, 0: .7}}
GCSV = [("H", [3], ["X", "Z"], [.061, .062]), ("R", [4], ["Y"], [.063]), ("M", [3, 4], ["X"], [.064]), ("CX", [3, 0, 4, 2], ["XI", "ZZ"], [.065, .066]), ("CZ", [4, 1], ["YX"], [.067])]


def write_csvs(tmp, n=5):
    with open(tmp + "/q.csv", "w") as f:
        f.write("qubit_id,qubit_type," + ",".join(QKEYS) + ",fabrication\n")
        for q in reversed(range(n)):
            f.write(f"{q},{'data' if q < 3 else 'stab'}," + ",".join(str(QCSV[k].get(q, "")) for k in QKEYS) + ",available\n")
    gates_csv(tmp + "/g.csv", GCSV)


def meaning(code, cfg, has_csv=True):
    """{(kind, qubit(s), channel): probability} of a configuration without gaussian entries."""
    data = [v.equbit_idx for v in code.lattice.dataqubits]
    stabs = [v.equbit_idx for v in code.lattice.stabgens]
    pairs = [(s.equbit_idx, e.data.equbit_idx) for s in code.lattice.stabgens for e in s.edges]
    out = {}
    q = cfg.get("qubit_errors") or {}
    if q.get("sample", True):
        for k in QKEYS:
            e = q.get(k)
            if e is None or not e.get("enabled", True) or e["distribution"] == "":
                continue
            for i in stabs if k == "measurement" else data:
                p = e["params"][0] if e["distribution"] == "constant" else QCSV[k].get(i, 0) if has_csv else 0
                if p:
                    out[("pauli", i, k.lower()) if k in "XYZ" else (k, i, "p")] = p
    g = cfg.get("gate_errors") or {}
    if g.get("sample", False):
        for k in ONE + TWO:
            e = g.get(k)
            if e is None or not e.get("enabled", True) or not e["distribution"]:
                continue
            if e["distribution"] == "user":
                for gate, qs, errs, ps in GCSV if has_csv else ():
                    if gate == k:
                        for t in qs if k in ONE else zip(qs[::2], qs[1::2]):
                            out.update({(k, t, x.lower()): p for x, p in zip(errs, ps) if p})
            else:
                for x, p in zip(e["induced_errors"], e["params"]):
                    out.update({(k, t, x.lower()): p[0] for t in (stabs if k in ONE else pairs) if p[0]})
    return out


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


@contextmanager
def scratch():
    tmp, old, rng = tempfile.mkdtemp(prefix="mc-p21-"), os.getcwd(), plaquette.rng
    os.chdir(tmp)
    try:
        yield tmp
    finally:
        os.chdir(old)
        plaquette.rng = rng
        shutil.rmtree(tmp, ignore_errors=True)


def full(code=("RepetitionCode", 3, 1), errors=None, **kw):
    name, size, rounds = code
    d = {"code": {"name": name, "rounds": rounds} | ({} if size is None else {"size": size}), "errors": errors or {}}
    return d | kw


def load(d, via, tmp):
    if via == "dict":
        return F.ExperimentConfig.from_dict(d)
    path = f"{tmp}/in.{via}"
    if via == "json":
        with open(path, "w") as f:
            json.dump(d, f)
        return F.ExperimentConfig.load_json(path)
    import toml
    with open(path, "w") as f:
        toml.dump(d, f)
    return F.ExperimentConfig.load_toml(path)


def weights(dec):
    return {key_of(e): float(e.weight) for e in dec.synmgr.sgraph.edges}


def general(d):
    return {"logical_op": "X", "qec_property": ["logical_error_rate"], "seed": 12345} | (d.get("general") or {})


def judge(sh, conf, d, key, case, has_csv=True, parts=("code", "errors", "circuit", "decoder", "device", "rng")):
    """Does what was built agree with the configuration?"""
    c = d["code"]
    fam, rounds = NAMES[c["name"]], c.get("rounds", 1)
    ref = C.make(fam, c.get("size"), rounds)
    good = sh.check(conf.code == ref and conf.code.n_rounds == rounds and np.array_equal(conf.code.stabilisers, ref.stabilisers) and np.array_equal(conf.code.logical_ops, ref.logical_ops),
                    f"{key}:code", f"{c} built another code", case)
    want, ed = meaning(ref, d.get("errors") or {}, has_csv), conf.errors
    for got, w in ((ed.error_data_dict, want), (ed.qubit_errors_dict, {k: p for k, p in want.items() if k[0] in ("pauli", "erasure", "measurement")}),
                   (ed.gate_errors_dict, {k: p for k, p in want.items() if k[0] in ONE + TWO})):
        got = flat(got)
        good &= sh.check(same(got, w), f"{key}:errors", lambda: f"errors {diff(got, w)} from {d.get('errors')}", case)
    if not good:
        return False
    quiet(ed.check_against_code, ref)
    if "circuit" in parts:
        exp = generate_qec_circuit(ref, ed.qubit_errors_dict, ed.gate_errors_dict, general(d)["logical_op"])
        good &= sh.check(str(conf.circuit) == str(exp), f"{key}:circuit", "another circuit was built", case)
    if "decoder" in parts:
        dc = {"name": "PyMatchingDecoder", "weighted": False} | (d.get("decoder") or {})
        cls = DECODERS[DEC[dc["name"]]]
        good &= sh.check(type(conf.decoder) is cls, f"{key}:decoder", f"{dc} built a {type(conf.decoder).__name__}", case)
        exp = weights(quiet(cls.from_code, ref, ed.error_data_dict, weighted=dc["weighted"]))
        got = weights(conf.decoder)
        good &= sh.check(got == exp, f"{key}:weights", lambda: f"{dc}: weights differ: {diff(got, exp)}", case)
    if "device" in parts:
        dv = {"name": "clifford", "shots": 1024} | (d.get("device") or {})
        used = backend_of(conf.device)
        good &= sh.check(conf.device_conf.shots == dv["shots"] and used in (dv["name"], []), f"{key}:device", f"{dv} built a device for {used}", case)
    return good


def backend_of(dev):
    """The simulator behind a device, seen when it is used."""
    rng = copy.deepcopy(plaquette.rng)
    dev.run(Circuit.from_str("M 0\n"))
    plaquette.rng = rng
    sims = [type(v).__module__ for v in vars(dev).values() if isinstance(v, AbstractSimulator)]
    return sims and ("stim" if "stimsim" in sims[0] else "clifford" if "circuitsim" in sims[0] else sims[0])


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in list(a.keys() | b.keys())[:400] if a.get(k) != b.get(k)}


def unweighable(d):
    """Weights cannot be worked out from gate errors; such experiments are refused."""
    g = d["errors"].get("gate_errors") or {}
    return d.get("decoder", {}).get("weighted", False) and g.get("sample", False) and any(k in g and g[k].get("enabled", True) and g[k]["distribution"] for k in ONE + TWO)


def try_build(sh, conf, d, case):
    if not unweighable(d):
        quiet(conf.build)
        return True
    try:
        quiet(conf.build)
    except ValueError:
        sh.count(refused=1)
        return False
    sh.fail("unweighable:accepted", "weights were made up for gate errors", case)
    return False


def build(d, via, tmp, sh, key, case):
    conf = load(d, via, tmp)
    quiet(conf.build)
    return conf


# ------------------------------------------------------------------------------------ items
QOPT = [None, {"distribution": "constant", "params": None}, {"distribution": "constant", "params": None, "enabled": False}, {"distribution": "user"}, {"distribution": "user", "enabled": False},
        {"distribution": "gaussian", "params": None, "enabled": False}, {"distribution": "constant", "params": None, "enabled": True}]
P = dict(X=.01, Y=.02, Z=.03, erasure=.04, measurement=.05, H=.06, R=.07, M=.08, CX=.09, CZ=.1)
CH = dict(H="X", R="Y", M="Z", CX="XZ", CZ="IY")


def qentry(k, o):
    o = copy.deepcopy(o)
    if o is not None and "params" in o:
        o["params"] = [P[k]] if o["distribution"] == "constant" else [P[k], .01]
    return o


GOPT = [None, "const", "const-off", "user", "user-off", "gauss-off", "zero"]


def gentry(k, o):
    if o is None:
        return None
    e = {"distribution": "user"} if o.startswith("user") else {"distribution": ["gaussian" if o.startswith("gauss") else "constant"], "induced_errors": [CH[k]],
                                                                "params": [[P[k]] if o.startswith("const") else [0.0] if o == "zero" else [P[k], .01]]}
    return e | ({"enabled": False} if o.endswith("off") else {})


def plan(tier):
    t = tier == "thorough"
    items = [("codes", n) for n in NAMES]
    items += [("qubits", (a, b, s, t)) for a in range(len(QOPT)) for b in range(len(QOPT)) for s in (None, True, False)]
    items += [("gates", (a, s, t)) for a in GOPT for s in (None, True, False)]
    items += [("mixed", (s, g)) for s in (None, True, False) for g in (None, True, False)]
    items += [("pieces", (dev, dec)) for dev in (None, "clifford", "stim") for dec in (None, *DEC)]
    items += [("invalid", k) for k in ("qubit", "gate", "rest")]
    items += [("gaussian", n) for n in ("RepetitionCode", "PlanarCode", "FiveQubitCode", "RotatedPlanarCode")]
    items += [("saved", k) for k in range(len(SAVED))]
    items += [("updates", (i, 3 if t else 2)) for i in range(len(UPDATES))]
    items += [("processes", k) for k in range(4 if t else 2)]
    items += [("circuits", 0), ("shared", 0), ("channels", 0)]
    items += [("steps", (dev, dec, via)) for dev in ("clifford", "stim") for dec in DEC for via in ("dict", "json")]
    return items


def codes(sh, name):
    """Names, sizes and rounds: right code, or refused."""
    MISSING = object()
    for size, rounds in product((MISSING, None, -1, 0, 2, 3, 4, -3, "3", 2.0, 2.5, [3]), (MISSING, None, 0, -1, 1, 2, 3, "1", 1.5, [1])):
        c = {"name": name} | ({} if size is MISSING else {"size": size}) | ({} if rounds is MISSING else {"rounds": rounds})
        r = 1 if rounds is MISSING else rounds
        valid = isinstance(r, int) and r > 0 and (name in FIXED or isinstance(size, int) and size > 0 and (size % 2 or name != "RepetitionCode"))
        sh.case((name, repr(size), repr(rounds)))
        try:
            conf = F.CodeConfig.from_dict(dict(c))
            code = conf.instantiate()
        except Exception as e:  # noqa: BLE001
            sh.check(not valid, "codes:refused", f"{c} was refused: {e!r}", c)
            sh.count(refused=1)
            continue
        if sh.check(valid, "codes:accepted", f"{c} was accepted", c):
            ref = C.make(NAMES[name], size, r)
            sh.check(code == ref and code.n_rounds == r and conf.rounds == r, "codes:other", f"{c} built another code", c)
            sh.count(states=1, transitions=2)
    for other in ("planar", "Planarcode", "", None, "SurfaceCode", "PlanarCode "):
        sh.case(("name", other))
        try:
            F.CodeConfig.from_dict({"name": other, "size": 3, "rounds": 1}).instantiate()
            sh.fail("codes:accepted", f"a code named {other!r} was accepted", other)
        except Exception:  # noqa: BLE001
            sh.count(refused=1)


def errors_only(sh, d, key, case, has_csv=True):
    conf = F.ExperimentConfig.from_dict(copy.deepcopy(d))
    conf.build_code()
    quiet(conf.build_errors)
    sh.case(case)
    sh.count(states=1, transitions=2)
    return judge(sh, conf, d, key, case, has_csv, parts=())


def qubits(sh, item):
    """All combinations of entries for the five kinds of qubit error."""
    a, b, sample, t = item
    with scratch() as tmp:
        write_csvs(tmp)
        for rest in product(range(len(QOPT)), repeat=3):
            if not t and (sum(rest) + a + b) % 2 and sample is not None:
                continue
            if not t and 5 in rest and 6 in rest:
                continue
            e = {k: qentry(k, QOPT[o]) for k, o in zip(QKEYS, (a, b, *rest)) if QOPT[o] is not None}
            if sum(rest) % 3 == 0:
                e["fabrication"] = {"distribution": "user", "enabled": False}
            q = {"data_path": "q.csv", "load_file": True} | e | ({} if sample is None else {"sample": sample})
            with sh.guard("qubits", (item, rest)):
                errors_only(sh, full(errors={"qubit_errors": q}), "qubits", (item, rest))
            if len(sh.viol) > 3:
                return
        # without a file there is nothing in the file
        for mask in product((0, 1), repeat=3):
            e = {k: qentry(k, QOPT[3 if m else o]) for k, o, m in zip(QKEYS, (a, b, 1, 3, 0), (*mask, 1, 0)) if QOPT[3 if m else o] is not None}
            with sh.guard("qubits", (item, mask)):
                errors_only(sh, full(errors={"qubit_errors": {"data_path": "absent.csv", "load_file": False} | e | ({} if sample is None else {"sample": sample})}), "qubits:nofile", (item, mask), False)


def gates(sh, item):
    a, sample, t = item
    with scratch() as tmp:
        write_csvs(tmp)
        opts = GOPT if t else [None, "const", "user", "const-off"]
        for rest in product(opts, repeat=4):
            if not t and len(set(rest)) < 2:
                continue
            e = {k: gentry(k, o) for k, o in zip(("CX", "H", "M", "R", "CZ"), (a, *rest)) if o is not None}
            if rest[0] == "user":
                e["fabrication"] = {"distribution": "user", "enabled": False}
            g = {"data_path": "g.csv", "load_file": True} | e | ({} if sample is None else {"sample": sample})
            with sh.guard("gates", (item, rest)):
                errors_only(sh, full(errors={"gate_errors": g}), "gates", (item, rest))
            if len(sh.viol) > 3:
                return
        for k, o in product(ONE + TWO, ("const", "zero", "const-off", "gauss-off", "user", "user-off")):
            for code in (("PlanarCode", 2, 1), ("ShorCode", None, 2), ("ToricCode", 2, 1), ("RotatedPlanarCode", 3, 1)):
                has = False
                g = {"data_path": "absent.csv", "load_file": False, k: gentry(k, o)} | ({a and "H": gentry("H", a)} if a in ("const", "zero") else {}) | ({} if sample is None else {"sample": sample})
                with sh.guard("gates", (item, k, o, code)):
                    errors_only(sh, full(code, {"gate_errors": g}), "gates:codes", (item, k, o, code), has)


def mixed(sh, item):
    """Qubit and gate errors together, for every kind of entry and both files, built as a whole."""
    qs, gs = item
    with scratch() as tmp:
        write_csvs(tmp)
        for k, q, g in product(range(5), (1, 2, 3), GOPT[1:4]):
            qk, gk = QKEYS[k], (ONE + TWO)[k]
            qe = {"data_path": "q.csv", "load_file": True, qk: qentry(qk, QOPT[q]), QKEYS[k - 1]: qentry(QKEYS[k - 1], QOPT[1])} | ({} if qs is None else {"sample": qs})
            ge = {"data_path": "g.csv", "load_file": True, gk: gentry(gk, g), (ONE + TWO)[k - 2]: gentry((ONE + TWO)[k - 2], "const")} | ({} if gs is None else {"sample": gs})
            for both in (0, 1, 2, 3):
                errors = {} | ({"qubit_errors": qe} if both & 1 else {}) | ({"gate_errors": ge} if both & 2 else {})
                d = full(errors=errors, decoder={"name": "UnionFindDecoder"})
                case = (item, k, q, g, both)
                if "circuit" and not both:
                    continue
                with sh.guard("mixed", case):
                    conf = build(copy.deepcopy(d), ("dict", "json", "toml")[(k + q) % 3], tmp, sh, "mixed", case)
                    sh.case(case)
                    sh.count(states=1, transitions=6)
                    judge(sh, conf, d, "mixed", case, parts=("circuit", "decoder"))
                if len(sh.viol) > 3:
                    return


def pieces(sh, item):
    """Every combination of device, decoder, weights, logical operator and way of loading."""
    dev, dec = item
    errs = {"qubit_errors": {"X": {"distribution": "constant", "params": [.07]}, "Z": {"distribution": "constant", "params": [.02]}, "measurement": {"distribution": "constant", "params": [.11]}}}
    with scratch() as tmp:
        for k, (w, lo, code, via, shots) in enumerate(product((None, True, False), (None, "X", "Z"), (("PlanarCode", 2, 2), ("FiveQubitCode", None, 1), ("RepetitionCode", 5, 3), ("ToricCode", 2, 1)), ("dict", "json", "toml"), (None, 7))):
            if dec == "UnionFindNoWeights" and w:
                continue
            lo2 = lo and (lo if code[0] != "ToricCode" else {"X": "XZ", "Z": "ZZ"}[lo])
            if code[0] == "ToricCode" and lo is None:
                continue
            d = full(code, errs)
            if dev or shots:
                d["device"] = ({"name": dev} if dev else {}) | ({"shots": shots} if shots else {})
            if dec or w is not None:
                d["decoder"] = ({"name": dec} if dec else {}) | ({} if w is None else {"weighted": w})
            if lo:
                d["general"] = {"logical_op": lo2, "qec_property": ["logical_error_rate"], "seed": 5 + k}
            case = (item, w, lo, code, via, shots)
            given = copy.deepcopy(d)
            with sh.guard("pieces", case):
                conf = build(d, via, tmp, sh, "pieces", case)
                sh.case(case)
                sh.count(states=1, transitions=6)
                judge(sh, conf, given, "pieces", case)
                ref = np.random.default_rng(general(given)["seed"])
                sh.check(plaquette.rng.bit_generator.state == ref.bit_generator.state, "pieces:seed", "building without random errors does not leave the generator at the start of the seed", case)
                # the given dictionary can be used again
                again = F.ExperimentConfig.from_dict(d)
                quiet(again.build)
                judge(sh, again, given, "pieces:again", case, parts=("circuit",))
                sh.check(again.as_dict() == conf.as_dict(), "pieces:again", "loading the same dictionary again gives another configuration", case)
            if len(sh.viol) > 3:
                return


def invalid(sh, kind):
    """What makes no sense is refused, at the latest when it is built."""
    base = full(("RepetitionCode", 3, 1), {"qubit_errors": {"X": {"distribution": "constant", "params": [.1]}}})

    def refused(d, why):
        sh.case((kind, why))
        for via in ("dict", "json"):
            try:
                conf = load(copy.deepcopy(d), via, tmp)
                quiet(conf.build)
            except Exception:  # noqa: BLE001
                sh.count(refused=1)
                continue
            sh.fail(f"invalid:{kind}", f"{why} was accepted ({via})", (kind, why))

    with scratch() as tmp:
        write_csvs(tmp)
        if kind == "qubit":
            for k in QKEYS:
                bad = [("constant", []), ("constant", [.1, .1]), ("constant", None), ("gaussian", [.1]), ("gaussian", []), ("gaussian", [.1, .1, .1]), ("gaussian", [-.1, .1]), ("gaussian", [1.1, .1]), ("gaussian", [.1, -.1]), ("gaussian", [.1, 1.5]),
                       ("user", [.1]), ("user", [.1, .1]), ("uniform", [.1]), ("Constant", [.1]), ("poisson", []), (None, [.1])]
                for dist, ps in bad:
                    for extra in ({}, {"enabled": True}):
                        e = {"distribution": dist, **extra} | ({} if ps is None else {"params": ps})
                        for others in ({}, {"Z" if k != "Z" else "X": {"distribution": "constant", "params": [.2]}}):
                            refused(base | {"errors": {"qubit_errors": {k: e, **others}}}, (k, dist, ps, tuple(extra), tuple(others)))
            for path in ("nowhere/q.csv", "missing.csv"):
                refused(base | {"errors": {"qubit_errors": {"data_path": path, "load_file": True, "X": {"distribution": "user"}}}}, path)
        elif kind == "gate":
            for k in ONE + TWO:
                ok, other = CH[k], "XX" if k in ONE else "X"
                bad = [(["constant"], [other], [[.1]]), (["constant"], ["W"], [[.1]]), (["constant"], ["xx"], [[.1]]), (["constant"], ["x"], [[.1]]), (["constant"], [ok], [[.1, .2]]), (["constant"], [ok], [[]]), (["constant"], [ok], []), (["constant"], [], [[.1]]),
                       (["constant"], [ok, ok], [[.1]]), (["gaussian"], [ok], [[.1]]), (["gaussian"], [ok], [[.1, .1, .1]]), (["gaussian"], [ok], [[1.5, .1]]), (["gaussian"], [ok], [[.5, -1]]), (["uniform"], [ok], [[.1]]), (["user"], [ok], [[.1]]),
                       ("user", [ok], [[.1]]), ("constant", [ok], [[.1]])]
                for dist, errs, ps in bad:
                    e = {"distribution": dist, "induced_errors": errs, "params": ps}
                    refused(base | {"errors": {"gate_errors": {"sample": True, k: e}}}, (k, dist, errs, ps))
            for path in ("nowhere/g.csv", "missing.csv"):
                refused(base | {"errors": {"gate_errors": {"data_path": path, "load_file": True, "sample": True, "H": {"distribution": "user"}}}}, path)
        else:
            for n in ("stims", "", None, "Clifford"):
                refused(base | {"device": {"name": n}}, ("device", n))
            for s in (0, -1, 1.5, "10", None):
                refused(base | {"device": {"shots": s}}, ("shots", s))
            for n in ("PyMatching", "", None, "unionfinddecoder", "DecoderInterface"):
                refused(base | {"decoder": {"name": n}}, ("decoder", n))
            refused(base | {"decoder": {"name": "UnionFindNoWeights", "weighted": True}}, "weights without weights")
            for lo in ("Y", "", "x", "XX", "XZ", "I"):
                refused(base | {"general": {"logical_op": lo, "qec_property": ["logical_error_rate"], "seed": 1}}, ("logical_op", lo))
            for c in ({}, {"name": "PlanarCode", "rounds": 1}, {"name": "PlanarCode", "size": 0, "rounds": 1}, {"name": "Planar", "size": 2, "rounds": 1}, {"name": "FiveQubitCode", "rounds": 0}):
                refused({"code": c, "errors": base["errors"]}, ("code", c))
            for p in ("nowhere.txt", "no/where.txt"):
                refused(base | {"circuit": {"circuit_provided": True, "has_errors": True, "circuit_path": p}}, ("circuit", p))


def gaussian(sh, name):
    """Gaussian rates: probabilities, one per qubit, from the package's generator alone."""
    size = {"FiveQubitCode": None, "PlanarCode": 2, "RepetitionCode": 3, "RotatedPlanarCode": 4}[name]
    ref = C.make(NAMES[name], size, 1)
    data, stabs = [v.equbit_idx for v in ref.lattice.dataqubits], [v.equbit_idx for v in ref.lattice.stabgens]
    pairs = [(s.equbit_idx, e.data.equbit_idx) for s in ref.lattice.stabgens for e in s.edges]
    combos = [(m, s) for m in (0, 1e-6, .01, .5, .99, 1, 0.0, 1.0) for s in (0, 1e-9, .001, .3, 1, 0.0)]
    keys = [("qubit_errors", k) for k in QKEYS] + [("gate_errors", k) for k in ONE + TWO]
    if name == "RotatedPlanarCode":
        combos = [(.5, .3), (.01, 1)]
    unordered = set()
    with scratch():
        for (sect, k), (m, s), seed in product(keys, combos, (1, 2)):
            e = {"distribution": "gaussian", "params": [m, s]} if sect == "qubit_errors" else {"distribution": ["gaussian"], "induced_errors": [CH[k]], "params": [[m, s]]}
            case = (name, sect, k, m, s, seed)
            d = full((name, size, 1), {sect: {k: e, "sample": True}}, general={"logical_op": "X", "qec_property": ["logical_error_rate"], "seed": seed})
            where = {"measurement": stabs, "H": stabs, "R": stabs, "M": stabs, "CX": pairs, "CZ": pairs}.get(k, data)
            got = []
            sh.case(case)
            sh.count(states=1, transitions=2)
            for noise in (1, 2):
                np.random.seed(noise * 77)
                plaquette.rng = np.random.default_rng(noise)  # whatever has been drawn before
                with sh.guard("gaussian", case):
                    conf = F.ExperimentConfig.from_dict(copy.deepcopy(d))
                    if noise == 2 and (m, s) in ((.01, .3), (.5, .001)):
                        quiet(conf.build)
                    else:
                        conf.update_rng()
                        conf.build_code()
                        quiet(conf.build_errors)
                    got.append(conf.errors.error_data_dict)
            if len(got) < 2:
                return
            a, b = flat(got[0]), flat(got[1])
            kind, ch = ("pauli", k.lower()) if k in "XYZ" else (k, "p") if sect == "qubit_errors" else (k, CH[k].lower())
            vals = [float(a.get((kind, q, ch), 0)) for q in where]
            sh.check(a == b, "gaussian:origin", "the same seed gives other rates", case)
            sh.check(set(a) <= {(kind, q, ch) for q in where}, "gaussian:place", f"rates at {set(a)}", case)
            sh.check(all(0 <= v <= 1 for v in vals), "gaussian:range", f"rates {vals}", case)
            sh.check(all(abs(v - m) <= 12 * s for v in vals), "gaussian:spread", f"rates {vals} for {m}, {s}", case)
            if s and 0 < m < 1 and s > 1e-7:
                sh.check(len(set(vals)) == len(vals), "gaussian:shared", f"rates {vals}", case)
                if vals not in (sorted(vals), sorted(vals)[::-1]):
                    unordered.add(k)
            if len(sh.viol) > 3:
                return
    if len(stabs) > 3:  # otherwise some orders may come up by chance
        sh.check(unordered == {k for _, k in keys}, "gaussian:sorted", f"the rates are always in the order of the qubits, except for {unordered}", (name,))


SAVED = [full(), full(("FiveQubitCode", None, 2), general={"logical_op": "Z", "qec_property": ["logical_error_rate"], "seed": 3}, device={"name": "stim", "shots": 12}),
         full(("PlanarCode", 2, 1), {"qubit_errors": {"X": {"distribution": "constant", "params": [.1]}, "erasure": {"distribution": "constant", "params": [.2], "enabled": False}}, "gate_errors": {"sample": True, "CX": {"distribution": ["constant"], "induced_errors": ["XI"], "params": [[.3]]}}},
              decoder={"name": "UnionFindNoWeights", "weighted": False}),
         full(("RepetitionCode", 3, 2), {"qubit_errors": {"Y": {"distribution": "constant", "params": [.125]}, "measurement": {"distribution": "constant", "params": [.2]}}}, decoder={"name": "FusionBlossomDecoder", "weighted": True}),
         full(("RepetitionCode", 3, 2), {"qubit_errors": {"data_path": "q.csv", "load_file": True, "X": {"distribution": "user"}, "Z": {"distribution": "user"}, "measurement": {"distribution": "user", "enabled": False}},
                                         "gate_errors": {"data_path": "g.csv", "load_file": True, "sample": True, "H": {"distribution": "user"}, "CX": {"distribution": "user"}}}, decoder={"name": "FusionBlossomDecoder", "weighted": False}),
         full(("RepetitionCode", 3, 1), {"qubit_errors": {"sample": False, "X": {"distribution": "constant", "params": [.1]}}, "gate_errors": {"sample": False, "H": {"distribution": ["constant"], "induced_errors": ["Z"], "params": [[.3]]}}}),
         full(("ToricCode", 2, 1), {"qubit_errors": {"Y": {"distribution": "constant", "params": [.125]}}}, general={"logical_op": "XZ", "qec_property": ["logical_error_rate"], "seed": 1}, circuit={"circuit_provided": False, "has_errors": False, "circuit_path": "circuit.txt"})]


def saved(sh, k):
    """Saving and loading back, in every order of formats, changes nothing."""
    with scratch() as tmp:
        write_csvs(tmp)
        d = SAVED[k]
        for ways in product(("dict", "json", "toml"), repeat=3):
            case = (k, ways)
            with sh.guard("saved", case):
                conf = F.ExperimentConfig.from_dict(copy.deepcopy(d))
                first = copy.deepcopy(conf.as_dict())
                for j, w in enumerate(ways):
                    sh.check(conf.validate() is not False, "saved:validate", "a loaded configuration is not valid", case)
                    if j % 2:
                        try_build(sh, conf, d, case)
                    p = f"{tmp}/s{j}.{w}"
                    if w == "dict":
                        conf = F.ExperimentConfig.from_dict(conf.as_dict())
                    elif w == "json":
                        conf.dump_json(p)
                        conf = F.ExperimentConfig.load_json(p)
                    else:
                        conf.dump_toml(p)
                        conf = F.ExperimentConfig.load_toml(p)
                    sh.check(conf.as_dict() == first, "saved:changed", f"{w} changed the configuration: {conf.as_dict()} from {first}", case)
                if try_build(sh, conf, d, case):
                    judge(sh, conf, d, "saved", case)
                sh.case(case)
                sh.count(states=1, transitions=4)


# ------------------------------------------------------------------------- updates
def _set(path, value):
    def f(d):
        for p in path[:-1]:
            d = d.setdefault(p, {})
        d[path[-1]] = copy.deepcopy(value)
    return f


def qm(**k):
    return F._QubitErrorMetadata(**k)


def gm(**k):
    return F._GateErrorMetadata(**k)


UPDATES = [
    ("size", lambda c: c.code_conf.update(size=5), _set(("code", "size"), 5)),
    ("rounds", lambda c: c.code_conf.update(rounds=2), _set(("code", "rounds"), 2)),
    ("planar", lambda c: c.code_conf.update(name="PlanarCode", size=2), lambda d: d["code"].update(name="PlanarCode", size=2)),
    ("replaced", lambda c: c.update(code_conf=F.CodeConfig(name="RotatedPlanarCode", size=3)), lambda d: d["code"].update(name="RotatedPlanarCode", size=3, rounds=1)),
    ("X off", lambda c: c.errors_conf.qubit_errors.X.update(enabled=False), _set(("errors", "qubit_errors", "X", "enabled"), False)),
    ("X on", lambda c: c.errors_conf.qubit_errors.X.update(enabled=True), _set(("errors", "qubit_errors", "X", "enabled"), True)),
    ("X p", lambda c: c.errors_conf.qubit_errors.X.update(params=[.2]), _set(("errors", "qubit_errors", "X", "params"), [.2])),
    ("M user", lambda c: c.errors_conf.qubit_errors.update(measurement=qm(distribution="constant", params=[.3])), _set(("errors", "qubit_errors", "measurement"), {"distribution": "constant", "params": [.3]})),
    ("Z new", lambda c: c.errors_conf.qubit_errors.Z.update(distribution="constant", params=[.15], enabled=True), _set(("errors", "qubit_errors", "Z"), {"distribution": "constant", "params": [.15]})),
    ("q off", lambda c: c.errors_conf.qubit_errors.update(sample=False), _set(("errors", "qubit_errors", "sample"), False)),
    ("q on", lambda c: c.errors_conf.qubit_errors.update(sample=True), _set(("errors", "qubit_errors", "sample"), True)),
    ("g off", lambda c: c.errors_conf.gate_errors.update(sample=False), _set(("errors", "gate_errors", "sample"), False)),
    ("g on", lambda c: c.errors_conf.gate_errors.update(sample=True), _set(("errors", "gate_errors", "sample"), True)),
    ("CX new", lambda c: c.errors_conf.gate_errors.update(CX=gm(distribution=["constant"], induced_errors=["ZZ"], params=[[.05]])),
     _set(("errors", "gate_errors", "CX"), {"distribution": ["constant"], "induced_errors": ["ZZ"], "params": [[.05]]})),
    ("H off", lambda c: c.errors_conf.gate_errors.H.update(enabled=False), _set(("errors", "gate_errors", "H", "enabled"), False)),
    ("H p", lambda c: c.errors_conf.gate_errors.H.update(params=[[.25]]), _set(("errors", "gate_errors", "H", "params"), [[.25]])),
    ("uf", lambda c: c.decoder_conf.update(name="UnionFindDecoder", weighted=True), lambda d: d["decoder"].update(name="UnionFindDecoder", weighted=True)),
    ("nw", lambda c: c.decoder_conf.update(name="UnionFindNoWeights", weighted=False), lambda d: d["decoder"].update(name="UnionFindNoWeights", weighted=False)),
    ("stim", lambda c: c.device_conf.update(name="stim", shots=3), lambda d: d.setdefault("device", {}).update(name="stim", shots=3)),
    ("logical Z", lambda c: c.general_conf.update(logical_op="Z"), _set(("general", "logical_op"), "Z")),
    ("seed", lambda c: c.general_conf.update(seed=99), _set(("general", "seed"), 99)),
    ("build", lambda c: quiet(c.build), lambda d: None),
    ("build errors", lambda c: (c.build_code(), quiet(c.build_errors)), lambda d: None),
    ("copy", None, lambda d: None),
]
BUILD = [u[0] for u in UPDATES].index("build")
START = full(("RepetitionCode", 3, 1), {"qubit_errors": {"X": {"distribution": "constant", "params": [.1]}}, "gate_errors": {"sample": True, "H": {"distribution": ["constant"], "induced_errors": ["X"], "params": [[.01]]}}},
             decoder={"name": "PyMatchingDecoder", "weighted": False}, general={"logical_op": "X", "qec_property": ["logical_error_rate"], "seed": 4})


def updates(sh, item):
    """Any sequence of updates and builds, then build: as if configured so from the start."""
    first, depth = item
    with scratch() as tmp:
        for rest in product(range(len(UPDATES)), repeat=depth - 1):
            for n in {len(rest)} | ({0} if not any(rest) else set()):
                seq = (first, *rest[:n])
                d = copy.deepcopy(START)
                case = tuple(UPDATES[i][0] for i in seq)
                with sh.guard("updates", case):
                    conf = F.ExperimentConfig.from_dict(copy.deepcopy(START))
                    quiet(conf.build)
                    for i in seq:
                        _, f, g = UPDATES[i]
                        if f is None:
                            conf = F.ExperimentConfig.from_dict(conf.as_dict())
                        elif i == BUILD:
                            try_build(sh, conf, d, case)
                        else:
                            f(conf)
                        g(d)
                    sh.case(case)
                    sh.count(states=1, transitions=len(seq) + 1)
                    if not try_build(sh, conf, d, case):
                        continue
                    judge(sh, conf, d, "updates", case)
                    sh.check(plaquette.rng.bit_generator.state == np.random.default_rng(d["general"]["seed"]).bit_generator.state, "updates:seed", "the generator is not at the start of the seed", case)
                if len(sh.viol) > 3:
                    return


# ------------------------------------------------------------------------- processes
SCRIPT = """
import sys, json, warnings
warnings.simplefilter("ignore")
import numpy as np, plaquette
import plaquette.frontend as F
ds = json.load(open(sys.argv[1]))
for d in ds + ds[::-1]:
    c = F.ExperimentConfig.from_dict(d)
    c.build()
    print(json.dumps([repr(sorted((k, sorted((repr(q), sorted(v.items())) for q, v in e.items())) for k, e in c.errors.error_data_dict.items())), str(c.circuit), repr(plaquette.rng.bit_generator.state)]))
"""


def processes(sh, k):
    """The same configuration and seed build the same experiment in every process."""
    g = {"distribution": "gaussian", "params": [.1, .05]}
    gg = {"distribution": ["gaussian"], "params": [[.02, .01]]}
    ds = [full(("RepetitionCode", 3, 1), {"qubit_errors": {x: g for x in ks}, "gate_errors": {"sample": True, **{x: gg | {"induced_errors": [CH[x]]} for x in gs}}}, general={"logical_op": "X", "qec_property": ["logical_error_rate"], "seed": 7})
          for ks in (QKEYS, ("X", "Z"), ("Y", "erasure", "measurement"), ()) for gs in ((), ("H", "CX"), ONE + TWO)]
    with scratch() as tmp:
        with open("in.json", "w") as f:
            json.dump(ds, f)
        with open("s.py", "w") as f:
            f.write(SCRIPT)
        outs = []
        for h in ("0", *(str(1 + 3 * k + j) for j in range(3))):
            p = subprocess.run([sys.executable, "s.py", "in.json"], env=dict(os.environ, PYTHONHASHSEED=h, PYTHONPATH=core.REPO + "/src"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if not sh.check(p.returncode == 0, "processes:raises", p.stderr[-1500:], h):
                return
            outs.append(p.stdout.splitlines())
        for i, d in enumerate(ds):
            sh.case((k, i))
            sh.count(states=1, transitions=len(outs))
            vs = {o[i] for o in outs} | {o[-1 - i] for o in outs}
            sh.check(len(vs) == 1, "processes:hash", "the experiment depends on the hash seed of the process or on what was built before", d)


def circuits(sh, _):
    """A given circuit is used as it is."""
    texts = ["X 0\nM 0\n", "H 0\nCX 0 1\nE_PAULI 0.1 0.2 0.3 0\nM 0 1", "R 0 1\nE_PAULI2 " + " ".join(["0.01"] * 15) + " 0 1\nM 1 0\n", "R 0\nE_ERASE 0.5 0\nERROR_CONTINUE\n"]
    texts, memo = texts[:3], {}
    with scratch():
        for i, t in enumerate(texts):
            with open("c.txt", "w") as f:
                f.write(t)
            for dev in ("stim", "clifford"):
                with sh.guard("circuits", (i, dev)):
                    d = full(circuit={"circuit_provided": True, "has_errors": True, "circuit_path": "c.txt"}, device={"name": dev}, errors={"qubit_errors": {"X": {"distribution": "constant", "params": [.1]}}})
                    conf = F.ExperimentConfig.from_dict(copy.deepcopy(d))
                    quiet(conf.build)
                    sh.case((i, dev))
                    sh.count(states=1, transitions=1)
                    sh.check(str(conf.circuit) == str(Circuit.from_str(t)) and list(conf.circuit.gates) == list(Circuit.from_str(t).gates), "circuits:given", "the given circuit is not used", (i, dev))
                    judge(sh, conf, d, "circuits", (i, dev), parts=("decoder", "device"))
        # all sequences of changes, each followed by building again
        want = [list(Circuit.from_str(t).gates) for t in texts]
        moves = [("file", 0), ("file", 1), ("path", "a.txt"), ("path", "b.txt"), ("given", False), ("given", True), ("logical_op", "Z")]
        for hist in product(range(len(moves)), repeat=3):
            for whole in (False, True) if hist[0] < 3 else (False,):
                content = {"a.txt": 0, "b.txt": 1}
                for f, i in content.items():
                    with open(f, "w") as fd:
                        fd.write(texts[i])
                d = full(circuit={"circuit_provided": True, "has_errors": True, "circuit_path": "a.txt"}, general={"logical_op": "X", "qec_property": ["logical_error_rate"], "seed": 3})
                case = ([moves[m] for m in hist], whole)
                sh.case(case)
                with sh.guard("circuits:again", case):
                    conf = F.ExperimentConfig.from_dict(copy.deepcopy(d))
                    quiet(conf.build)
                    path, given, op = "a.txt", True, "X"
                    for m in hist:
                        what, v = moves[m]
                        if what == "file":
                            content["a.txt"] = v
                            with open("a.txt", "w") as fd:
                                fd.write(texts[v])
                        elif what == "path":
                            path = v
                            conf.circuit_conf.update(circuit_path=v)
                        elif what == "given":
                            given = v
                            conf.circuit_conf.update(circuit_provided=v)
                        else:
                            op = v
                            conf.general_conf.update(logical_op=v)
                        quiet(conf.build if whole else conf.build_circuit)
                        sh.count(states=1, transitions=1)
                        if given:
                            sh.check(list(conf.circuit.gates) == want[content[path]], "circuits:again", "not the circuit in the file", case)
                        else:
                            if ("gen", op) not in memo:
                                e = full(general={"logical_op": op, "qec_property": ["logical_error_rate"], "seed": 3})
                                fresh = F.ExperimentConfig.from_dict(e)
                                quiet(fresh.build)
                                memo["gen", op] = list(fresh.circuit.gates)
                            sh.check(list(conf.circuit.gates) == memo["gen", op], "circuits:again", "not the generated circuit", case)


def shared(sh, _):
    """Experiments do not influence each other, not even through defaults or a common dictionary."""
    with scratch():
        for i, (name, f, _) in enumerate(UPDATES):
            if f is None:
                continue
            for how in ("empty", "same", "defaults"):
                case = (name, how)
                with sh.guard("shared", case):
                    if how == "defaults":
                        mk = lambda: F.ExperimentConfig(code_conf=F.CodeConfig(name="RepetitionCode", size=3), errors_conf=F.ErrorsConfig(), decoder_conf=F.DecoderConfig(weighted=False))  # noqa: E731
                    elif how == "empty":
                        mk = lambda: F.ExperimentConfig.from_dict(full())  # noqa: E731
                    else:
                        d = copy.deepcopy(START)
                        mk = lambda: F.ExperimentConfig.from_dict(d)  # noqa: E731
                    a, b = mk(), mk()
                    before = copy.deepcopy(b.as_dict())
                    try:
                        f(a)
                    except ValueError:
                        # an update that makes no sense for this start
                        pass
                    sh.case(case)
                    sh.count(states=1, transitions=1)
                    sh.check(b.as_dict() == before, "shared:changed", f"updating one experiment ({name}) changed another one", case)
                    sh.check(mk().as_dict() == before, "shared:dictionary", f"updating an experiment ({name}) changed the dictionary it was loaded from, or the defaults", case)


STEPS = dict(code=(), errors=("code",), circuit=("code", "errors"), device=(), decoder=("code", "errors"))


def steps(sh, item):
    """Every order of building the pieces one by one: a piece is there exactly when it was built."""
    dev, dec, via = item
    errs = {"qubit_errors": {"X": {"distribution": "constant", "params": [.07]}, "measurement": {"distribution": "constant", "params": [.11]}}}
    d = full(("RepetitionCode", 3, 2), errs, device={"name": dev, "shots": 3}, decoder={"name": dec, "weighted": False})
    with scratch() as tmp:
        def orders(done):
            yield done
            for s, needs in STEPS.items():
                if s not in done and set(needs) <= set(done):
                    yield from orders(done + (s,))
        for order in orders(()):
            case = (item, order)
            with sh.guard("steps", case):
                conf = load(copy.deepcopy(d), via, tmp)
                for s in order:
                    quiet(getattr(conf, f"build_{s}"))
                for s in STEPS:
                    if s == "code":
                        continue  # built when needed
                    try:
                        there = getattr(conf, s) is not None
                    except ValueError:
                        there = False
                    sh.check(there == (s in order), "steps:there", f"{s} is {'' if there else 'not '}there after building {order}", case)
                sh.case(case)
                sh.count(states=1, transitions=len(order))
                if len(order) == len(STEPS):
                    judge(sh, conf, d, "steps", case, parts=("code", "errors", "circuit", "decoder", "device"))


def channels(sh, _):
    """Several channels for one gate in a configuration."""
    with scratch():
        for k in ONE + TWO:
            names = ["X", "Y", "Z"] if k in ONE else ["XX", "ZI", "IY"]
            for n in (1, 2, 3):
                for errs in combinations(names, n):
                    ps = [[.01 * (1 + names.index(x))] for x in errs]
                    g = {"sample": True, k: {"distribution": ["constant"] * n, "induced_errors": list(errs), "params": ps}}
                    d = full(errors={"gate_errors": g})
                    case = (k, errs)
                    with sh.guard("channels", case):
                        conf = F.ExperimentConfig.from_dict(copy.deepcopy(d))
                        conf.build_code()
                        quiet(conf.build_errors)
                        got, want = flat(conf.errors.error_data_dict), meaning(conf.code, d["errors"])
                        sh.case(case)
                        sh.count(states=1, transitions=1)
                        last = {q: p for q, p in want.items() if q[2] == errs[-1].lower()}
                        if not same(got, want):
                            sh.fail("channels:last-only" if n > 1 and same(got, last) else "channels:other", f"{k} with {errs}: {sorted(got.items(), key=repr)[:6]}", case)


def finish(n, tier):
    assert n["refused"] > 300 and n["states"] > 3000, n
    return {}
