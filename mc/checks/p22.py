"""P22: the logical error rate of an experiment is the fraction of shots left uncorrected."""
import copy
import json
import os
import subprocess
import sys
from collections import Counter
from itertools import combinations, product
from math import comb

os.environ.setdefault("TQDM_DISABLE", "1")

import numpy as np  # noqa: E402
import plaquette  # noqa: E402
import plaquette.frontend as F  # noqa: E402
from plaquette.device import Device, MeasurementSample  # noqa: E402

from .. import codes as C  # noqa: E402
from .. import core, qec, qecref  # noqa: E402
from ..choice import distribution  # noqa: E402
from .p15 import DECODERS  # noqa: E402
from .p21 import DEC, NAMES, full, quiet, scratch  # noqa: E402

LEVEL = "model_checking"
RULE = ("state = (configuration, shots); transition = one execution of the real experiment; with the clifford device every answer of the random number generator is taken, and the exact distribution of the returned rate is compared with the one "
        "computed from the circuit's noise, the decoder's answers and the code's algebra; errors that surely happen or not are enumerated in all combinations on both devices; non-trivial = distinct configuration")
ASSUMPTIONS = ["the effect of each noise instruction is computed by Pauli propagation over the built circuit (mc/qecref.py), whose contents P12 and P21 decide",
               "the answer of a decoder to a syndrome is that of an unused decoder of the same kind (P16-P18 decide those)"]
CHUNK = 1
if hasattr(F, "tqdm"):
    # progress bars are not looked at
    F.tqdm = lambda it, *a, **k: it


def const(p, **k):
    return {"distribution": "constant", "params": [p], **k}


def gate(ch, p):
    return {"distribution": ["constant"], "induced_errors": [ch], "params": [[p]]}


def conf_of(code, errors, dev="clifford", shots=1, dec="UnionFindDecoder", lo="X", seed=1, weighted=False):
    return full(code, errors, device={"name": dev, "shots": shots}, decoder={"name": dec, "weighted": weighted}, general={"logical_op": lo, "qec_property": ["logical_error_rate"], "seed": seed})


def built(d):
    conf = F.ExperimentConfig.from_dict(copy.deepcopy(d))
    quiet(conf.build)
    return conf


def outcomes(gates, lay):
    """{(effect on syndrome bits and toggles, erasure flags): probability} of the noise in a circuit."""
    chans, erased = qecref.effects(gates, lay.detectors() + lay.observables())
    dist = {(0, 0): 1.0}

    def conv(parts):
        nonlocal dist
        out = Counter()
        for (b, f), p in dist.items():
            for (e, g), q in parts.items():
                if q > 0:
                    out[b ^ e, f | g] += p * q
        dist = out
    for c in chans:
        parts = Counter()
        for e, p in c:
            parts[e, 0] += p
        parts[0, 0] += 1 - sum(p for _, p in c)
        conv(parts)
    for k, (p, x, z, _) in enumerate(erased):
        parts = Counter({(0, 0): 1 - p})
        for e in (0, x, z, x ^ z):
            parts[e, 1 << k] += p / 4
        conv(parts)
    return dist, len(erased)


class Judge:
    def __init__(self, d, lo):
        c = d["code"]
        self.code = C.make(NAMES[c["name"]], c.get("size"), c["rounds"])
        self.lay = qec.Layout(self.code, lo, False)
        self.logs = [C.op(self.code.logical_ops[i]) for i in self.lay.idx]
        self.d, self.memo = d, {}

    def decoder(self, ed):
        """Kept for many questions: decoders have no memory (P18)."""
        self.dec = quiet(DECODERS[DEC[self.d["decoder"]["name"]]].from_code, self.code, ed, weighted=self.d["decoder"]["weighted"])

    def success(self, bits, flags, n_er):
        if (bits, flags) not in self.memo:
            lay = self.lay
            nd = lay.R * lay.S
            syn = np.array([bits >> i & 1 for i in range(nd)], dtype="u1").reshape(lay.R, lay.S)
            er = np.array([flags >> i & 1 for i in range(n_er)], dtype=bool).reshape(lay.R, -1) if n_er else None
            corr = self.dec.decode(er, syn)
            self.memo[bits, flags] = [C.anti(C.op(corr), l) for l in self.logs] == [bits >> (nd + i) & 1 for i in range(len(self.logs))]
        return self.memo[bits, flags]


# ------------------------------------------------------------------------------- items
REP, FIVE, PLAN, ROT, REP2 = ("RepetitionCode", 3, 1), ("FiveQubitCode", None, 1), ("PlanarCode", 2, 1), ("RotatedPlanarCode", 2, 1), ("RepetitionCode", 3, 2)
EXACT = [
    (REP, {"qubit_errors": {"X": const(.1)}}, "Z", 1), (REP, {"qubit_errors": {"X": const(.1)}}, "X", 1), (REP, {"qubit_errors": {"Z": const(.2)}}, "X", 1), (REP, {"qubit_errors": {"X": const(.3)}}, "Z", 2),
    (REP, {"qubit_errors": {"Y": const(.125)}}, "Z", 1), (REP, {"qubit_errors": {"X": const(.1), "Z": const(.05)}}, "X", 1), (REP, {"qubit_errors": {"erasure": const(.25)}}, "Z", 1),
    (REP, {"qubit_errors": {"measurement": const(.25)}}, "Z", 1), (("RepetitionCode", 3, 2), {"qubit_errors": {"X": const(.1)}}, "Z", 1), (("RepetitionCode", 3, 2), {"qubit_errors": {"measurement": const(.2), "X": const(.01, enabled=False)}}, "Z", 1),
    (("RepetitionCode", 3, 3), {"qubit_errors": {"measurement": const(.2)}}, "Z", 1), (REP2, {"gate_errors": {"sample": True, "CZ": gate("IX", .1)}}, "Z", 1), (REP2, {"gate_errors": {"sample": True, "H": gate("Z", .1)}}, "Z", 1),
    (REP2, {"gate_errors": {"sample": True, "CZ": gate("ZX", .2), "R": gate("X", .05)}}, "Z", 1), (REP2, {"gate_errors": {"sample": True, "M": gate("X", .1)}, "qubit_errors": {"X": const(.2)}}, "Z", 1),
    (ROT, {"qubit_errors": {"X": const(.1)}}, "Z", 1), (ROT, {"qubit_errors": {"Z": const(.1)}}, "X", 1), (ROT, {"qubit_errors": {"Y": const(.1)}}, "X", 1), (("RotatedPlanarCode", 2, 2), {"gate_errors": {"sample": True, "CX": gate("IX", .1)}}, "Z", 1),
    (PLAN, {"qubit_errors": {"X": const(.1)}}, "Z", 1), (PLAN, {"qubit_errors": {"Z": const(.1)}}, "X", 1), (PLAN, {"qubit_errors": {"X": const(.2)}}, "X", 1),
    (("RepetitionCode", 5, 1), {"qubit_errors": {"X": const(.1)}}, "Z", 1), (REP, {"qubit_errors": {"X": const(.5)}}, "Z", 3), (REP2, {"gate_errors": {"sample": True, "R": gate("X", .3)}}, "Z", 2), (REP, {}, "Z", 3), (ROT, {}, "X", 2),
]
DEEP = [
    (("RepetitionCode", 3, 2), {"qubit_errors": {"X": const(.1), "measurement": const(.2)}}, "Z", 1), (("RepetitionCode", 3, 3), {"qubit_errors": {"X": const(.1)}}, "Z", 1), (("RepetitionCode", 5, 2), {"qubit_errors": {"X": const(.05)}}, "Z", 1),
    (ROT, {"qubit_errors": {"X": const(.1), "Z": const(.2)}}, "X", 1), (ROT, {"qubit_errors": {"X": const(.1), "Z": const(.2)}}, "Z", 1), (ROT, {"qubit_errors": {"erasure": const(.2)}}, "X", 1), (("RotatedPlanarCode", 2, 2), {"qubit_errors": {"X": const(.1)}}, "Z", 1),
    (PLAN, {"qubit_errors": {"Y": const(.1)}}, "X", 1), (("RepetitionCode", 7, 1), {"qubit_errors": {"X": const(.1)}}, "Z", 1), (FIVE, {"qubit_errors": {"X": const(.1)}}, "Z", 1), (REP2, {"gate_errors": {"sample": True, "CZ": gate("ZX", .2), "H": gate("X", .1), "R": gate("X", .05)}}, "Z", 1),
    (REP, {"qubit_errors": {"X": const(.1), "Y": const(.2), "Z": const(.3)}}, "X", 1), (REP, {"qubit_errors": {"X": const(.1)}}, "Z", 4), (REP, {"qubit_errors": {"erasure": const(.2), "X": const(.1)}}, "Z", 1),
]
CERTAIN = [("RepetitionCode", 3, 1), ("RepetitionCode", 3, 2), ("RotatedPlanarCode", 2, 1), ("PlanarCode", 2, 2), ("FiveQubitCode", None, 1), ("RepetitionCode", 5, 3), ("ShorCode", None, 1), ("ToricCode", 2, 1), ("RotatedPlanarCode", 3, 2), ("PlanarCode", 3, 1)]


def plan(tier):
    t = tier == "thorough"
    items = [("exact", (i, d, "e")) for i in range(len(EXACT)) for d in (DEC if t or i in (0, 1, 8, 15, 19) else list(DEC)[i % 4:][:1])]
    if t:
        items += [("exact", (i, d, "d")) for i in range(len(DEEP)) for d in DEC]
    items += [("certain", (c, dev, dec, t)) for c in CERTAIN for dev in ("clifford", "stim") for dec in DEC]
    items += [("watched", (i, dev, dec)) for i in range(len(WATCHED)) for dev in ("clifford", "stim") for dec in DEC]
    items += [("again", (i, dev)) for i in range(len(WATCHED)) for dev in ("clifford", "stim")]
    return items


def exact(sh, item):
    """The distribution of the rate, over all answers of the random number generator."""
    i, dec, which = item
    code, errors, lo, shots = (EXACT if which == "e" else DEEP)[i]
    if dec == "PyMatchingDecoder" and "erasure" in str(errors):
        return
    d = conf_of(code, errors, shots=shots, dec=dec, lo=lo)
    with sh.guard("exact", (code, errors, lo, shots, dec), 3600):
        conf = built(d)
        j = Judge(d, lo)
        j.decoder(conf.errors.error_data_dict)
        out, n_er = outcomes(conf.circuit.gates, j.lay)
        bad = sum(p for (b, f), p in out.items() if not j.success(b, f, n_er))
        want = {round(k / shots, 9): comb(shots, k) * bad ** k * (1 - bad) ** (shots - k) for k in range(shots + 1)}

        def once():
            conf.build_device()
            return round(float(conf.run()), 9)
        got, n = distribution(once)
        sh.count(states=1, transitions=n, executions=n)
        sh.case((code, errors, lo, shots, dec))
        ok = all(abs(got.get(k, 0) - want.get(k, 0)) < 1e-7 for k in got.keys() | want.keys())
        sh.check(ok, "exact", f"rates {got}, expected {want}", (code, errors, lo, shots, dec))
        if 1e-6 < bad < 1 - 1e-6:
            sh.count(nontrivial_rates=1)


def patterns(code, t):
    """Sets of (column, qubit) whose errors surely happen."""
    n, s = code.n_data_qubits, code.n_stabgens
    locs = [(k, q) for q in range(n) for k in "XYZ"] + [("measurement", n + i) for i in range(s)]
    yield ()
    for k in range(1, 4 if n <= 5 or t and n <= 9 else 3):
        for fs in combinations(locs, k):
            if len({q for _, q in fs}) == k:
                yield fs


def certain(sh, item):
    """Errors that surely happen: the rate is zero or one, as the algebra says."""
    c, dev, dec, t = item
    fam, size, r = c
    code = C.make(NAMES[fam], size, r)
    ps = list(patterns(code, t))
    limit = 160 if t else 40
    if len(ps) > limit:  # a fixed selection of a fixed list: all of weight one, then every k-th
        one = [p for p in ps if len(p) <= 1]
        rest = ps[len(one):]
        step = max(1, len(rest) // limit)
        start = {"PyMatchingDecoder": 0, "UnionFindDecoder": 1, "UnionFindNoWeights": 2, "FusionBlossomDecoder": 3}[dec] + 4 * (dev == "stim")
        ps = one + rest[start % step::step]
    los = {"ToricCode": ["XX", "XZ", "ZX", "ZZ"]}.get(fam, ["X", "Z"])
    with scratch():
        for k, fs in enumerate(ps):
            if not t and len(ps) > 30 and dev == "clifford" and k % 2:
                continue
            lo = los[k % len(los)]
            with open("q.csv", "w") as f:
                f.write("qubit_id,qubit_type,X,Y,Z,measurement\n")
                for q in range(code.n_data_qubits + code.n_stabgens):
                    f.write(f"{q},{'data' if q < code.n_data_qubits else 'stab'}," + ",".join(str(float((col, q) in fs)) for col in ("X", "Y", "Z", "measurement")) + "\n")
            errors = {"qubit_errors": {"data_path": "q.csv", "load_file": True, **{col: {"distribution": "user"} for col in ("X", "Y", "Z", "measurement")}}}
            shots = (1, 2, 5)[k % 3]
            d = conf_of(c, errors, dev, shots, dec, lo)
            case = (item, fs, lo, shots)
            with sh.guard("certain", case):
                conf = built(d)
                j = Judge(d, lo)
                j.decoder(conf.errors.error_data_dict)
                # every error happens in each round: worked out from the code's operators alone
                bits = effect(j, fs)
                want = 0.0 if j.success(bits, 0, 0) else 1.0
                got = conf.run()
                sh.count(states=1, transitions=shots, executions=1, **{f"rate{int(want)}": 1})
                sh.case(case)
                sh.check(got == want, "certain", f"rate {got}, expected {want} when {fs} surely happen", case)
            if len(sh.viol) > 3:
                return


def effect(j, fs):
    """Syndrome bits and toggles of errors that happen in every round."""
    stabs = [C.op(s) for s in j.code.stabilisers]
    n, S, R = j.code.n_data_qubits, j.lay.S, j.lay.R
    x = z = 0
    for col, q in fs:
        if col != "measurement":
            x ^= (col in "XY") << q
            z ^= (col in "ZY") << q
    flip = sum(1 << i for i, s in enumerate(stabs) if C.anti((x, z), s))
    bits = 0
    for r in range(R):
        bits ^= flip << (r * S)
    for col, q in fs:
        if col == "measurement":
            # The noisy rounds read out wrongly, the first (reference) and the last one do not.
            for r in range(1, R):
                bits ^= 1 << (r - 1) * S + q - n
                bits ^= 1 << r * S + q - n
            # wrong in rounds 1..R-1 means the changes cancel in between
    total = (x, z) if R % 2 else (0, 0)
    for i, l in enumerate(j.logs):
        bits |= C.anti(total, l) << (R * S + i)
    return bits


WATCHED = [
    (("RepetitionCode", 3, 2), {"qubit_errors": {"X": const(.1), "measurement": const(.1)}}, "Z"),
    (("PlanarCode", 2, 1), {"qubit_errors": {"X": const(.1), "Z": const(.15)}}, "X"),
    (("RotatedPlanarCode", 3, 2), {"qubit_errors": {"Y": const(.05)}, "gate_errors": {"sample": True, "CX": gate("ZI", .02)}}, "Z"),
    (("FiveQubitCode", None, 1), {"qubit_errors": {"X": {"distribution": "gaussian", "params": [.1, .1]}, "Z": const(.05)}}, "X"),
    (("ToricCode", 2, 1), {"qubit_errors": {"X": const(.1), "Z": const(.05)}}, "XZ"),
    (("RepetitionCode", 5, 1), {"qubit_errors": {"erasure": const(.3)}}, "Z"),
]


def watched(sh, item):
    """The rate returned is the fraction of failures among the very samples that were taken."""
    i, dev, dec = item
    code, errors, lo = WATCHED[i]
    if dec == "PyMatchingDecoder" and "erasure" in str(errors):
        return
    real = Device.get_sample
    for shots, seed in ((1, 1), (2, 2), (3, 3), (7, 4), (40, 5), (150, 6)):
        d = conf_of(code, errors, dev, shots, dec, lo, seed)
        case = (item, shots, seed)
        seen = []

        def spy(self):
            out = real(self)
            seen.append(tuple(None if x is None else np.array(x) for x in out))
            return out
        with scratch(), sh.guard("watched", case):
            conf = built(d)
            Device.get_sample = spy
            try:
                rate = conf.run()
            finally:
                Device.get_sample = real
            if len(seen) != shots:
                # The samples were taken in another way: not observed
                sh.count(unobserved=1)
                continue
            j = Judge(d, lo)
            j.decoder(conf.errors.error_data_dict)
            bad = 0
            for raw, er in seen:
                raw = [int(b) for b in raw]
                par = [sum(raw[k] for k in s) & 1 for s in j.lay.detectors() + j.lay.observables()]
                flags = 0 if er is None else sum(int(b) << k for k, b in enumerate(er))
                bad += not j.success(sum(b << k for k, b in enumerate(par)), flags, 0 if er is None else len(er))
            sh.count(states=1, transitions=shots, executions=1)
            sh.case(case)
            sh.check(abs(rate - bad / shots) < 1e-9, "watched", f"rate {rate}, but {bad} of {shots} samples are not corrected", case)


SCRIPT = """
import os, sys, json, warnings
os.environ["TQDM_DISABLE"] = "1"
warnings.simplefilter("ignore")
import plaquette.frontend as F
if hasattr(F, "tqdm"): F.tqdm = lambda it, *a, **k: it
import numpy as np
np.random.seed(int(sys.argv[2]))
out = []
for d in json.load(open(sys.argv[1])):
    c = F.ExperimentConfig.from_dict(d)
    c.build()
    out.append(c.run())
    c.build()
    out.append(c.run())
    out.append(c.run())
print(json.dumps(out))
"""


def again(sh, item):
    """The same configuration and seed give the same rate: in this process, again, and in others."""
    i, dev = item
    code, errors, lo = WATCHED[i]
    with scratch():
        ds = [conf_of(code, errors, dev, 30, "UnionFindDecoder", lo, seed) for seed in (1, 2, 77)]
        with open("in.json", "w") as f:
            json.dump(ds, f)
        with open("s.py", "w") as f:
            f.write(SCRIPT)
        outs = []
        for h in ("0", "1", "4242"):
            p = subprocess.run([sys.executable, "s.py", "in.json", h], env=dict(os.environ, PYTHONHASHSEED=h, PYTHONPATH=core.REPO + "/src"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if not sh.check(p.returncode == 0, "again:raises", p.stderr[-1500:], (item, h)):
                return
            outs.append(json.loads(p.stdout.splitlines()[-1]))
        for k, d in enumerate(ds):
            sh.case((item, k))
            sh.count(states=1, transitions=9)
            rates = {tuple(o[3 * k:3 * k + 3]) for o in outs}
            sh.check(len(rates) == 1, "again:process", f"rates {sorted(rates)} in different processes", d)
            a, b, _ = outs[0][3 * k:3 * k + 3]
            sh.check(a == b, "again:built", f"rate {a}, and {b} after building again", d)
        # A second run of a built experiment is another sample of the same experiment
        sh.check(len({tuple(outs[0][3 * k + 1:3 * k + 3]) for k in range(3)} - {(r, r) for r in outs[0]}) > 0 or len(set(outs[0])) == 1, "again:frozen", f"running again repeats the samples: {outs[0]}", item)


def finish(n, tier):
    assert n["nontrivial_rates"] >= 12 and n["rate0"] > 200 and n["rate1"] > 200, n
    return {}
