"""P07: device sessions - what a sequence of runs, resets and readouts returns."""
from itertools import product

import numpy as np

import plaquette
from plaquette import Device
from plaquette import device as devmod
from plaquette.circuit import Circuit, CircuitBuilder
from plaquette.device._circuitsim import CircuitSimulator
from plaquette.device._stimsim import StimSimulator

from .. import dense as D
from .. import refsim as R
from ..choice import explore

LEVEL = "model_checking"
RULE = ("state = (device, accumulated record, quantum state, circuits); transition = one session call "
        "(run, run without reset, sample, read, reset, partial stepping, growing the circuit, switching circuits); "
        "all call sequences up to the stated depth, with every resolution of the random choices; non-trivial = more than one call")
ASSUMPTIONS = ["with a different circuit object a local backend starts afresh (its register may differ)",
               "stim itself samples correctly; its shots are told apart with 100-coin circuits"]
CHUNK = 1

CIRCS = {
    "coin": "H 0\nM 0",
    "toggle": "X 0\nE_ERASE 1.0 1\nM 0",
    "mix": "ERROR 0.5 X 0\nERROR_ELSE 1.0 X 1\nM 0 1\nE_ERASE 0.0 0",
    "big": "X 2\nCX 2 0\nM 0",
    "tail": "M 0\nERROR 1.0 X 0",
}
OPS1 = ("sample", "keep", "run", "runkeep", "read", "step1", "step2", "steps", "reset", "grow")


def plan(tier):
    t = tier == "thorough"
    items = [("sim_session", (c, a, b, d)) for d in ((3, 4) if not t else (3, 4, 5)) for c in CIRCS
             for a in range(len(OPS1)) for b in range(len(OPS1)) if d == 3 or t or c in ("coin", "toggle")]
    items += [("dev_session", (be, a, 5 if t else 4)) for be in ("clifford", "stim") for a in range(len(OPS2))]
    items += [("stim_shots", (bs, seed)) for bs in (1, 2, 3, 5, 64) for seed in (0, 1, 2**40)]
    items += [("rng_repro", be) for be in ("clifford", "stim")]
    items += [("remote", 0), ("refusals", 0)]
    return items


# ------------------------------------------------------------------ simulator sessions
def ref_session(gates0, ops):
    """{(observations, final record): unnormalised rho} of the whole session."""
    gates = list(gates0)
    n = nq(gates)
    br = {((), (), (), n): D.zero(n)}  # obs, m, e, register size -> rho

    def reset(b):
        out, n = {}, nq(gates)
        for (o, m, e, k), r in b.items():
            key = (o, (), (), n)
            out[key] = out.get(key, 0) + np.trace(r) * D.zero(n)
        return out

    def steps(b, count):
        out = {}
        for (o, m, e, k), r in b.items():
            s = {(m, e, (False,) * 3): r}
            for name, args in gates[:count]:
                s = R.step(s, name, args, k)
            for (m2, e2, _), r2 in s.items():
                key = (o, m2, e2, k)
                out[key] = out.get(key, 0) + r2
        return out

    def read(b):
        out = {}
        for (o, m, e, k), r in b.items():
            key = (o + ((m, e),), m, e, k)
            out[key] = out.get(key, 0) + r
        return out
    for op in ops:
        if op in ("sample", "run", "reset"):
            br = reset(br)
        if op in ("sample", "keep", "run", "runkeep", "steps"):
            br = steps(br, len(gates))
        if op == "step1":
            br = steps(br, 1)
        if op == "step2":
            br = steps(br, 2)
        if op in ("sample", "keep", "read", "steps"):
            br = read(br)
        if op == "grow":
            gates = [*gates, ("X", (0,)), ("M", (0,))]
    return {k: v for k, v in br.items() if abs(np.trace(v)) > 1e-12}


def nq(gates):
    return max([0] + [a for s in gates for a in s[1] if isinstance(a, int)]) + 1


def rd(res):
    m, e = res
    return tuple(int(x) for x in m), tuple(bool(x) for x in e) if e is not None else ()


def drive_sim(text, ops):
    c = Circuit.from_str(text)
    sim = CircuitSimulator(c)
    obs = []
    for op in ops:
        if op == "sample":
            obs.append(rd(sim.get_sample()))
        elif op == "keep":
            obs.append(rd(sim.get_sample(after_reset=False)))
        elif op == "run":
            sim.run()
        elif op == "runkeep":
            sim.run(after_reset=False)
        elif op == "read":
            obs.append(rd(sim.process_results()))
        elif op == "reset":
            sim.reset()
        elif op == "steps":
            for _ in sim:
                pass
            obs.append(rd(sim.process_results()))
        elif op in ("step1", "step2"):
            it = iter(sim)
            for _ in range(int(op[-1])):
                next(it)
        elif op == "grow":
            c.append("X", 0)
            c.append("M", 0)
    m, e = rd(sim.process_results())
    t = D.tuples(sim.state.tableau)
    return tuple(obs), m, e, t


def sim_session(sh, item):
    name, a, b, depth = item
    text = CIRCS[name]
    g0 = Circuit.from_str(text).gates
    for rest in product(OPS1, repeat=depth - 2):
        ops = (OPS1[a], OPS1[b], *rest)
        if depth > 3 and ops.count("steps") + ops.count("keep") + ops.count("runkeep") > 2:
            continue
        case = (name, ops)
        want = ref_session(g0, ops)
        sh.count(states=1)
        with sh.guard("session", case):
            got, k = {}, 0
            for p, (o, m, e, t) in explore(lambda: drive_sim(text, ops)):
                k += 1
                rho = D.rho_of_rows(t[len(t) // 2:])
                if rho is None:
                    sh.fail("state", "invalid state", case)
                    break
                key = (o, m, e, len(t) // 2)
                got[key] = got.get(key, 0) + p * rho
            sh.count(transitions=k * depth, traces_validated_against_impl=k)
            sh.case(case)
            sh.check(got.keys() == want.keys() and R.same(got, want), f"session:{name}",
                     lambda: f"observations {R.probs(got)}, want {R.probs(want)}", case)
    if a == 1 and b == 2:
        sh.sample(f"{name}: {ops} -> {R.probs(want)}")


# --------------------------------------------------------------------- device sessions
# Deterministic circuits, so that one session has one result on either backend.
DC = {"A": "X 0\nE_ERASE 0.0 1\nM 0 1", "B": "X 2\nCX 2 1\nM 0 1 2", "C": "M 0\nX 0\nM 0\nE_ERASE 1.0 1\nE_ERASE 0.0 1"}
OPS2 = ("A", "A+", "bA", "bA+", "bA'", "B", "bB", "C", "C+", "grow A", "grow C", "read", "reset", "set B")


def dev_session(sh, item):
    be, first, depth = item
    for k in range(1, depth + 1):
        for rest in product(OPS2, repeat=k - 1):
            ops = (OPS2[first], *rest)
            if depth > 3 and k == depth and ops.count("read") + ops.count("reset") + ops.count("set B") != 1:
                continue
            if be == "stim" and any(o[-1] == "+" for o in ops[:-1]):
                continue  # refused on stim; one at the end is enough
            one_dev(sh, be, ops)


def ref_run(gates, x):
    """Deterministic execution on a bit list; E_ERASE of a fixed |0> qubit elsewhere."""
    m, e = [], []
    for name, args in gates:
        if name == "X":
            x[args[0]] ^= 1
        elif name == "CX":
            x[args[1]] ^= x[args[0]]
        elif name == "M":
            m += [x[q] for q in args]
        elif name == "E_ERASE":
            e.append(args[0] == 1.0)
    return m, e


def one_dev(sh, be, ops):
    case = (be, ops)
    circ = {k: Circuit.from_str(v) for k, v in DC.items()}
    builders = {k: CircuitBuilder(c) for k, c in circ.items()}
    model = {"circ": None, "x": None, "m": [], "e": []}
    with sh.guard("device", case):
        kw = {"batch_size": 4, "stim_seed": 7} if be == "stim" else {}
        dev = Device(be, **kw)
        sh.count(states=1)
        sh.case(case, nontrivial=len(ops) > 1)
        for op in ops:
            sh.count(transitions=1)
            if op == "read":
                if model["circ"] is None or not model.get("ran"):
                    continue
                compare(sh, dev, model, case)
                continue
            if op == "reset":
                if model["circ"] is None:
                    continue
                dev.reset_backend()
                if be == "clifford":
                    model.update(x=[0] * 8, m=[], e=[])
                    compare(sh, dev, model, case)
                continue
            if op == "set B":
                if model["circ"] is None:
                    continue
                dev.circuit = circ["B"]
                model["circ"] = "B"
                model["ran"] = False
                dev.run(circ["B"])
                model.update(x=[0] * 8, m=[], e=[], ran=True)
                run_model(model, circ["B"])
                compare(sh, dev, model, case)
                continue
            if op.startswith("grow"):
                circ[op[-1]].append("X", 0)
                circ[op[-1]].append("M", 0)
                model["grown"] = op[-1]
                continue
            name, keep = op.strip("b+'"), op[-1] == "+"
            c = circ[name] if op[0] != "b" else (CircuitBuilder(circ[name]) if "'" in op else builders[name])
            if be == "stim" and keep:
                try:
                    dev.run(c, after_reset=False)
                    sh.fail("stim:no-reset", "stim accepted after_reset=False", case)
                except ValueError:
                    pass
                continue
            dev.run(c, after_reset=not keep)
            if not (keep and model["circ"] == name):
                model.update(x=[0] * 8, m=[], e=[])
            model["circ"], model["ran"] = name, True
            run_model(model, circ[name])
            compare(sh, dev, model, case)
        sh.count(traces_validated_against_impl=1)


def run_model(model, c):
    m, e = ref_run(c.gates, model["x"])
    model["m"] = model["m"] + m
    model["e"] = model["e"] + e


def compare(sh, dev, model, case):
    m, e = rd(dev.get_sample())
    sh.check(list(m) == model["m"] and list(e) == model["e"], "device",
             lambda: f"returned {m}, {e}; want {model['m']}, {model['e']}", case)
    sh.check(dev.circuit.number_of_qubits >= 1, "device:circuit", "no circuit", case)


# ----------------------------------------------------------------------- stim batching
WIDE = "H " + " ".join(map(str, range(100))) + "\nM " + " ".join(map(str, range(100)))


def stim_shots(sh, item):
    bs, seed = item
    with sh.guard("stim:shots", item):
        for via in ("sim", "device", "builder"):
            def fresh(s=seed):
                c = Circuit.from_str(WIDE + "\nE_ERASE 0.0 3\nE_ERASE 1.0 4")
                if via == "sim":
                    sim = StimSimulator(c, stim_seed=s, batch_size=bs)
                    return sim.get_sample, sim.reset
                b = CircuitBuilder(c) if via == "builder" else c
                dev = Device("stim", stim_seed=s, batch_size=bs)

                def shot():
                    dev.run(b)
                    return dev.get_sample()
                return shot, lambda *a: dev.reset_backend(*a)

            def shots(get, k):
                out = []
                for _ in range(k):
                    m, e = get()
                    sh.check(len(m) == 100 and e is not None and list(e) == [False, True], "stim:record",
                             f"{len(m)} results, erasures {e}", item)
                    out.append(tuple(map(int, m)))
                return out
            k = 3 * bs + 2
            get, reset = fresh()
            a = shots(get, k)
            sh.count(states=k, transitions=k, traces_validated_against_impl=1)
            for i in range(k):
                sh.case((item, via, i))
            sh.check(len(set(a)) == k, "stim:repeated-shot",
                     f"{k - len(set(a))} of {k} shots of 100 coins repeat an earlier shot", (item, via))
            sh.check(all(any(s[q] for s in a) and not all(s[q] for s in a) for q in range(100)) or k < 40,
                     "stim:stuck", "a coin never changes", (item, via))
            sh.check(shots(fresh()[0], k) == a, "stim:seed", "the same seed gives other shots", (item, via))
            sh.check(shots(fresh(seed + 1)[0], k) != a, "stim:seed-ignored", "another seed gives the same shots", (item, via))
            reset(seed)
            sh.check(shots(get, k) == a, "stim:reset-seed", "reset to the seed does not replay", (item, via))
            for cut in range(1, bs + 1):  # reset in the middle of a batch
                get, reset = fresh()
                shots(get, cut)
                reset(seed + 1)
                sh.check(shots(get, 2) == shots(fresh(seed + 1)[0], 2), "stim:reset-new-seed",
                         f"after {cut} shots, reset(new seed) does not start that seed's shots", (item, via))
                if cut > 8:
                    break
            for other in (0, 1, 5):
                get, reset = fresh()
                shots(get, 1)
                reset(other)
                sh.check(shots(get, 2) == shots(fresh(other)[0], 2), "stim:reset-new-seed", f"reset({other}) does not start that seed's shots", (item, via))


def rng_repro(sh, be):
    """Everything random comes from plaquette.rng, whatever happened before."""
    real = plaquette.rng
    c = Circuit.from_str(WIDE if be == "stim" else
                         "H 0 1 2 3\nM 0 1 2 3\nE_ERASE 0.5 0\nDEPOLARIZE 1\nE_PAULI 0.2 0.2 0.2 2\nERROR 0.5 X 3\nR 0\nH 0\nM 0 1 2 3\n" * 3)

    def session(n, noise):
        for i in range(noise):
            np.random.random(i + 1)
            np.random.default_rng().random()
            d = Device(be)
            d.run(Circuit.from_str("H 0\nM 0"))
        plaquette.rng = np.random.default_rng(1234)
        out = []
        for _ in range(n):
            dev = Device(be)
            for _ in range(3):
                dev.run(c)
                out.append(rd(dev.get_sample()))
        return out
    try:
        with sh.guard("rng", be):
            base = session(3, 0)
            for noise in range(1, 5):
                sh.case((be, noise))
                sh.count(states=1, transitions=9, traces_validated_against_impl=1)
                sh.check(session(3, noise) == base, "rng:reproducible",
                         f"{be}: reseeding plaquette.rng does not reproduce the session", noise)
            sh.check(len(set(base)) > 1, "rng:constant", "all shots are equal", be)
            for a in (0, 3, 6):
                sh.check(len(set(base[a:a + 3])) > 1 or be == "clifford", "rng:batch", "shots of a device are equal", be)
            if be == "stim":
                sh.check(len(set(base)) == 9, "rng:fresh-seed", "two unseeded devices gave the same shots", be)
    finally:
        plaquette.rng = real


# ---------------------------------------------------------------------- remote backends
class FakeRemote:
    made = []

    def __init__(self, *a, **k):
        self.init = (a, k)
        self.log = []
        self.done = False
        self.circ = None
        FakeRemote.made.append(self)

    def run(self, circuit, *, shots=1):
        self.log.append((circuit, shots))
        return f"job{len(self.log)}"

    def get_sample(self):
        return f"sample{len(self.log)}"

    def reset(self, *a, **k):
        self.log.append(("reset", a, k))
        return "reset"

    @property
    def is_completed(self):
        return [self.done]


class Entry:
    name = "fake"

    def load(self):
        return FakeRemote


def remote(sh, item):
    """Remote backends get exactly the calls the user makes."""
    devmod.recognized_devices["fake"] = Entry()
    try:
        c = Circuit.from_str("X 0")
        for ops in product(("run1", "run5", "get", "done", "reset"), repeat=4):
            with sh.guard("remote", ops):
                sh.count(states=1, transitions=4, traces_validated_against_impl=1)
                sh.case(ops)
                FakeRemote.made.clear()
                dev = Device("fake", 3, key="v")
                sh.check(len(FakeRemote.made) == 1 and FakeRemote.made[0].init == ((3,), {"key": "v"}), "remote:args", "", ops)
                be, log = FakeRemote.made[0], []
                for op in ops:
                    if op == "run1":
                        log.append((c, 1))
                        sh.check(dev.run(c) == f"job{len(log)}", "remote:run", "job handle lost", ops)
                    elif op == "run5":
                        log.append((c, 5))
                        sh.check(dev.run(c, shots=5) == f"job{len(log)}", "remote:run", "job handle lost", ops)
                    elif op == "get":
                        sh.check(dev.get_sample() == f"sample{len(log)}", "remote:get", "", ops)
                    elif op == "done":
                        be.done = not be.done
                        sh.check(dev.is_completed == [be.done], "remote:done", "", ops)
                    else:
                        log.append(("reset", (1,), {"x": 2}))
                        dev.reset_backend(1, x=2)
                sh.check(be.log == log and len(FakeRemote.made) == 1, "remote:calls", f"{be.log} want {log}", ops)
    finally:
        del devmod.recognized_devices["fake"]


def refusals(sh, item):
    for name in ("", "Clifford", "qiskit", "clifford ", "stimm"):
        sh.case(name)
        sh.count(states=1)
        try:
            Device(name)
            sh.fail("unknown-backend", f"Device({name!r}) accepted", name)
        except ValueError:
            pass
    for cls in (CircuitSimulator, StimSimulator):
        for bad in ("X 0", None, [("X", (0,))]):
            sh.case((cls.__name__, str(bad)))
            try:
                cls(bad)
                sh.fail("not-a-circuit", f"{cls.__name__}({bad!r}) accepted", bad)
            except TypeError:
                pass
    for be in ("clifford", "stim"):
        d = Device(be)
        d.run(Circuit.from_str("M 0"))
        sh.check(d.is_completed is None, "is_completed", f"{d.is_completed}", be)
