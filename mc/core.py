"""Shared machinery of the checks: work distribution, counting, verdicts, evidence.

A check module (``mc/checks/<id>.py``) defines

* ``LEVEL``, ``RULE``, ``ASSUMPTIONS``: descriptive constants for the evidence;
* ``plan(tier) -> list[(function_name, item)]``: the complete, finite list of work
  items. Order matters: items are listed simplest first, so that the first violation
  reported is the smallest one;
* the functions named there, each ``f(sh, item)`` where ``sh`` is a :class:`Shard`.

Every item is enumerated and executed; nothing is sampled. Items are spread over a
pool of forked workers; the verdict does not depend on the scheduling.
"""
from __future__ import annotations

import base64
import hashlib
import importlib
import json
import mmap
import multiprocessing as mp
import os
import pickle
import re
import signal
import sys
import time
import traceback
from collections import Counter, deque
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
EVIDENCE = os.environ.get("MC_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
MAX_VIOLATIONS_PER_ITEM = 3
# Once something was found, the rest of the items is not waited for longer than this.
PATIENCE = 600


class Violation(Exception):
    """Raised by check code: the property does not hold on the current case."""

    def __init__(self, key, msg, case=None):
        super().__init__(msg)
        self.key, self.msg, self.case = key, msg, case


class HarnessError(Exception):
    """The harness itself cannot decide (never reported as a property verdict)."""


class Hang(Exception):
    """The code under test did not come back within a very generous limit."""


class Shard:
    """What one work item contributes."""

    def __init__(self):
        self.n = Counter()
        self.samples = []
        self.viol = []
        self.distinct = set()

    def count(self, **kw):
        _CLOCK.ticks[0] += 1
        for k, v in kw.items():
            self.n[k] += v

    def case(self, key=None, nontrivial=True):
        """Count one evaluated case; ``key`` identifies it for distinctness."""
        _CLOCK.ticks[0] += 1
        self.n["evaluations"] += 1
        if nontrivial and key is not None:
            self.distinct.add(hash64(key))
            if not self.samples:
                self.sample(key)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(str(s)[:600])

    def fail(self, key, msg, case=None):
        key = str(key)
        if len(self.viol) < 60 and sum(v[0] == key for v in self.viol) < MAX_VIOLATIONS_PER_ITEM:
            self.viol.append((str(key), str(msg)[:2000], repr(case)[:2000]))
        else:
            self.n["violations_dropped"] += 1

    def check(self, cond, key, msg, case=None):
        _CLOCK.ticks[0] += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, case)
        return bool(cond)

    @contextmanager
    def guard(self, key, case=None, seconds=120):
        """Run code under test; any exception it raises is a violation."""
        try:
            with deadline(seconds):
                yield
        except Violation as e:
            self.fail(e.key, e.msg, e.case if e.case is not None else case)
        except HarnessError:
            raise
        except Hang:
            self.fail(f"{key}:hang", f"no result within {seconds}s", case)
        except (KeyboardInterrupt, SystemExit, GeneratorExit):
            raise
        except BaseException as e:  # noqa: BLE001 (a panic of a native library is no Exception)
            if from_repo(e):
                self.fail(f"{key}:raises:{type(e).__name__}", f"{type(e).__name__}: {e}", case)
            elif isinstance(e, UNUSABLE):
                self.fail(f"{key}:unusable:{type(e).__name__}", unusable(e), case)
            else:
                raise


def from_repo(e):
    """Did this exception come out of the code under test (or of what it called)?"""
    tb = traceback.extract_tb(e.__traceback__)
    src = os.path.join(REPO, "src") + os.sep
    return any(os.path.abspath(f.filename).startswith(src) for f in tb)


def unusable(e):
    return (f"the result of the code under test has an unusable form: {type(e).__name__}: {e}\n"
            + "".join(traceback.format_tb(e.__traceback__)[-3:]))


# What indexing, comparing or unpacking raises on a result of the wrong form.
UNUSABLE = (TypeError, ValueError, IndexError, KeyError, OverflowError, ZeroDivisionError)


def hash64(x):
    if not isinstance(x, (bytes, str)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode()
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "big")


class _CLOCK:
    """What the watchdog knows: a run hangs when nothing was counted or checked for a while.

    Only the lack of progress counts, so a slow machine or a long work item is no hang.
    """

    ticks = [0]  # in a worker: a cell of memory shared with the supervisor
    seen = 0
    seconds = 0.0


def _alarm(signum, frame):
    if _CLOCK.ticks[0] == _CLOCK.seen:
        raise Hang()
    _arm(_CLOCK.seconds)


def _arm(seconds):
    _CLOCK.seen, _CLOCK.seconds = _CLOCK.ticks[0], seconds
    signal.setitimer(signal.ITIMER_REAL, seconds)


@contextmanager
def deadline(seconds):
    """Raise :class:`Hang` when no progress is made for ``seconds`` (at most twice that)."""
    if signal.getsignal(signal.SIGALRM) is not _alarm:
        signal.signal(signal.SIGALRM, _alarm)
    outer = _CLOCK.seconds
    _arm(seconds)
    try:
        yield
    finally:
        # Nested deadlines: the inner one wins, the outer one starts afresh afterwards.
        signal.setitimer(signal.ITIMER_REAL, 0)
        _CLOCK.seconds = 0.0
        if outer:
            _arm(outer)


# --------------------------------------------------------------------------- findings
def load_known(prop):
    """Lines: ``known: property=<id> key=<regex> :: <what fails>`` (see DESIGN.md)."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# ------------------------------------------------------------------------------- pool
_MOD = None


def _work(job):
    idx, fn, item, limit = job
    sh = Shard()
    err = None
    t0 = time.monotonic()
    try:
        with deadline(limit):
            getattr(_MOD, fn)(sh, item)
    except Violation as e:
        sh.fail(e.key, e.msg, e.case if e.case is not None else item)
    except Hang:
        sh.fail(f"{fn}:hang", f"no progress within {limit}s", item)
    except HarnessError:
        err = traceback.format_exc()
    except (KeyboardInterrupt, SystemExit, GeneratorExit):
        raise
    except BaseException as e:  # noqa: BLE001 (a panic of a native library is no Exception)
        if from_repo(e):
            sh.fail(f"{fn}:raises:{type(e).__name__}", f"{type(e).__name__}: {e}\n"
                    + "".join(traceback.format_tb(e.__traceback__)[-3:]), item)
        elif isinstance(e, UNUSABLE):
            sh.fail(f"{fn}:unusable:{type(e).__name__}", unusable(e), item)
        else:
            err = traceback.format_exc()
    if os.environ.get("MC_TIMES") and time.monotonic() - t0 > 3:
        print(f"   {time.monotonic() - t0:.1f}s {fn} {item!r}"[:150], file=sys.stderr)
    return idx, sh.n, sh.samples, sh.viol, sh.distinct, err


class _Worker:
    """A forked process which works through the items it is sent."""

    def __init__(self, ctx, jobs, cell):
        self.cell = cell
        self.conn, far = ctx.Pipe()
        self.items = []  # indices sent and not answered yet; the first one is under way
        self.proc = ctx.Process(target=_serve, args=(far, self.conn, jobs, cell), daemon=True)
        self.proc.start()
        far.close()
        self.seen, self.since = cell[0], time.monotonic()

    def send(self, indices):
        self.items = list(indices)
        self.seen, self.since = self.cell[0], time.monotonic()
        self.conn.send(self.items)

    def stuck(self, limit):
        """No item finished, nothing counted or checked for much longer than the limit."""
        if self.cell[0] != self.seen:
            self.seen, self.since = self.cell[0], time.monotonic()
        return bool(self.items) and time.monotonic() - self.since > limit

    def stop(self):
        self.proc.kill()
        self.proc.join()
        self.conn.close()


def _serve(conn, near, jobs, cell):
    near.close()
    _CLOCK.ticks = cell
    parent = os.getppid()
    while True:
        while not conn.poll(5):
            if os.getppid() != parent:
                os._exit(0)
        try:
            indices = conn.recv()
        except EOFError:
            os._exit(0)
        for i in indices:
            conn.send(_work(jobs[i]))


def _pool(jobs, nproc, chunk, limit):
    """Yield the result of every job, in order, whatever becomes of the workers.

    An item whose worker dies is tried once more in a fresh one, and so is an item which
    makes no progress although the worker's own watchdog should have ended it (code
    stuck in a native library). A second time is a verdict.
    """
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    cells = memoryview(mmap.mmap(-1, 8 * nproc)).cast("Q")
    todo = deque(range(len(jobs)))
    lost, done, nxt = Counter(), {}, 0
    workers, verdicts = [], []
    try:
        for k in range(nproc):
            workers.append(_Worker(ctx, jobs, cells[k:k + 1]))

        def feed(w):
            if todo and not w.items:
                # Items that were lost once travel alone.
                m = 1 if lost[todo[0]] else chunk
                w.send([todo.popleft() for _ in range(min(m, len(todo)))])

        def replace(w, what):
            w.stop()
            if w.items:
                i, rest = w.items[0], w.items[1:]
                lost[i] += 1
                todo.extendleft(reversed(rest))
                if lost[i] < 2 and not verdicts:
                    todo.appendleft(i)
                else:
                    verdicts.append(i)
                    sh = Shard()
                    _, fn, item, _ = jobs[i]
                    sh.fail(f"{fn}:{what[0]}", what[1], item)
                    done[i] = (i, sh.n, sh.samples, sh.viol, sh.distinct, None)
            k = workers.index(w)
            workers[k] = _Worker(ctx, jobs, w.cell)
            feed(workers[k])

        for w in workers:
            feed(w)
        while nxt < len(jobs):
            if nxt in done:
                yield done.pop(nxt)
                nxt += 1
                continue
            yield None  # a chance to stop waiting
            wait([w.conn for w in workers] + [w.proc.sentinel for w in workers], timeout=2)
            for w in list(workers):
                gone = not w.proc.is_alive()
                try:
                    while w.conn.poll():
                        res = w.conn.recv()
                        assert res[0] == w.items.pop(0)
                        done[res[0]] = res
                        w.seen, w.since = w.cell[0], time.monotonic()
                except (EOFError, OSError):
                    gone = True
                if gone:
                    w.proc.join()
                    replace(w, ("crash", "the process running the code under test died "
                                f"(exit code {w.proc.exitcode}), twice"))
                elif w.stuck(limit * 1.25):
                    replace(w, ("hang", f"no progress within {limit}s, twice"))
                else:
                    feed(w)
    finally:
        for w in workers:
            w.stop()


def run_property(prop, tier, seed):
    global _MOD
    t0 = time.monotonic()
    mod = _MOD = importlib.import_module(f"mc.checks.{prop.lower()}")
    jobs_spec = list(mod.plan(tier))
    limit = getattr(mod, "ITEM_LIMIT", 150 if tier == "quick" else 600)
    jobs = [(i, fn, item, limit) for i, (fn, item) in enumerate(jobs_spec)]
    total = Shard()
    viols, errors = [], []
    nproc = int(os.environ.get("MC_JOBS", "0")) or min(8, os.cpu_count() or 1)
    known = load_known(prop)

    def is_known(key):
        return next((w for k, w in known if re.fullmatch(k, key)), None)

    def take(res):
        idx, n, samples, viol, distinct, err = res
        total.n.update(n)
        if len(total.samples) < 6:
            total.samples.extend(samples[:2])
        total.distinct |= distinct
        for v in viol:
            viols.append((idx, *v))
        if err:
            errors.append((idx, err))

    if nproc > 1 and len(jobs) > 1:
        chunk = max(1, min(64, len(jobs) // (nproc * 8) or 1))
        chunk = getattr(mod, "CHUNK", chunk)
        for res in _pool(jobs, nproc, chunk, limit):
            if res:
                take(res)
            found = sum(1 for v in viols if not is_known(v[1]))
            if len(errors) > 8 or found >= 5 or (found and time.monotonic() - t0 > PATIENCE):
                total.n["stopped_early"] = 1
                break
    else:
        for j in jobs:
            take(_work(j))
            if len(errors) > 8 or sum(1 for v in viols if not is_known(v[1])) >= 5:
                total.n["stopped_early"] = 1
                break
    extra = {}
    if hasattr(mod, "finish"):
        # Whole-run assertions about coverage (vacuity guards), from the merged counts.
        # Not applied when the run stopped at a violation.
        if not viols and not errors:
            extra = mod.finish(total.n, tier) or {}
    new, seen_known = [], {}
    for v in sorted(viols, key=lambda v: v[0]):
        w = is_known(v[1])
        if w:
            seen_known.setdefault(w, 0)
            seen_known[w] += 1
        else:
            new.append(v)
    for w in seen_known:
        print(f"KNOWN-FINDING: property={prop} {w}")
    wall = time.monotonic() - t0
    cov = {k: int(v) for k, v in total.n.items()}
    cov["distinct_nontrivial"] = len(total.distinct)
    cov.setdefault("evaluations", 0)
    cov["work_items"] = len(jobs)
    cov["rule"] = mod.RULE
    cov["samples"] = total.samples[:6] or ["(none)"]
    cov["exhaustive"] = not total.n.get("stopped_early") and not errors
    if mod.LEVEL == "model_checking":
        # Executions are of the real code; where a check does not count them separately,
        # each evaluation is one.
        for k, v in (("states", 0), ("transitions", 0), ("traces_validated_against_impl", cov["evaluations"])):
            cov.setdefault(k, v)
    cov.update(extra)
    cov["known_findings_seen"] = sum(seen_known.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": cov, "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(wall, 3), "violations": len(new),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    brief = {k: v for k, v in cov.items() if isinstance(v, int)}
    print(f"[{prop}] tier={tier} wall={wall:.1f}s {brief}")
    if new:
        os.makedirs(REPLAYS, exist_ok=True)
        for k, (idx, key, msg, case) in enumerate(new[:5]):
            path = os.path.join(REPLAYS, f"{prop}-{k}.json")
            fn, item = jobs_spec[idx]
            with open(path, "w") as f:
                json.dump({
                    "property": prop, "key": key, "message": msg, "case": case,
                    "function": fn, "item": repr(item),
                    "item_pickle": base64.b64encode(pickle.dumps(item)).decode(),
                    "how": f"/opt/venv/bin/python run.py replay {path}",
                }, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   key={key}\n   case={case}\n   {msg}")
        return 1
    if errors:
        for idx, err in errors[:3]:
            print(f"HARNESS ERROR in item {idx} {jobs_spec[idx]!r}\n{err}", file=sys.stderr)
        return 2
    return 0


def replay(path):
    global _MOD
    d = json.load(open(path))
    _MOD = importlib.import_module(f"mc.checks.{d['property'].lower()}")
    item = pickle.loads(base64.b64decode(d["item_pickle"]))
    out = []
    for _ in range(2):
        _, _, _, viol, _, err = _work((0, d["function"], item, 300))
        out.append(viol)
        if err:
            print(err)
    if out[0] != out[1]:
        print("replay is not deterministic")
    for key, msg, case in out[0]:
        print(f"VIOLATION property={d['property']} replay={path}\n   key={key}\n   case={case}\n   {msg}")
    return 1 if out[0] else 0


def main(argv):
    import argparse

    if argv and argv[0] == "replay":
        return replay(argv[1])
    if argv and argv[0] == "setup":
        # Pure Python: nothing to build. Confirm the interpreter and the reference model.
        from . import dense, tab
        assert len(tab.states(2)) == 60 and dense.row_of(dense.PX) == (1, 0, 0)
        print("setup ok")
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        import plaquette
    except Exception:  # noqa: BLE001
        # An unimportable package cannot uphold anything.
        traceback.print_exc()
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{a.property}-import.json")
        json.dump({"property": a.property, "message": "import plaquette fails"}, open(path, "w"))
        print(f"VIOLATION property={a.property} replay={path}")
        return 1
    src = os.path.abspath(plaquette.__file__)
    if not src.startswith(os.path.join(REPO, "src") + os.sep):
        print(f"plaquette imported from {src}, not from {REPO}", file=sys.stderr)
        return 2
    return run_property(a.property.upper(), a.tier, seed)
