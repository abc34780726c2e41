#!/usr/bin/env python3
"""Systematic mutants of plaquette that pass its tests: which ones do the checks catch?

    mutate.py list                     -> number of mutants per file
    mutate.py tests OUT.jsonl [-j N] [--only FILE,...] [--stride K/M]
    mutate.py checks TESTS.jsonl OUT.jsonl

``tests`` keeps the mutants that pass the stable tests; ``checks`` runs the checks that could
see each of them until one reports a violation. Works in copies under /tmp/mutw-*.
"""
import ast
import copy
import difflib
import hashlib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = "/repo"
SRC = "src/plaquette"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = {
    "pauli.py": "P03 P04 P01 P02 P10 P06",
    "circuit/__init__.py": "P05 P09 P06 P08 P12 P07",
    "circuit/openqasm.py": "P09 P23",
    "circuit/generator.py": "P12 P11 P13",
    "codes/latticebase.py": "P10 P11 P14 P12 P23",
    "codes/__init__.py": "P10 P11 P12 P13 P19 P23",
    "codes/latticeinstances.py": "P10 P11 P12 P23",
    "decoders/__init__.py": "P15 P16 P17 P21",
    "decoders/decoderbase.py": "P15 P16 P17 P18 P14",
    "decoders/fusionblossom.py": "P16 P17 P15 P18",
    "decoders/matching.py": "P16 P17 P15 P18",
    "decoders/interfaces.py": "P16 P17 P18",
    "decoders/unionfind_decoder.py": "P16 P17 P18 P15",
    "decoders/unionfind_erasure.py": "P16 P17 P18",
    "decoders/unionfind_interfaces.py": "P16 P17 P18",
    "device/__init__.py": "P07 P13 P06 P08 P21 P22",
    "device/_circuitsim.py": "P06 P07 P13",
    "device/_stimsim.py": "P08 P07 P13",
    "frontend/__init__.py": "P21 P22 P20",
    "frontend/schemas.py": "P21",
    "errors/__init__.py": "P20 P12 P15 P21",
    "syngraph/__init__.py": "P14 P16 P15 P17",
    "syngraph/weights.py": "P15 P14",
    "visualizer/__init__.py": "P23",
    "__init__.py": "P07 P21 P22",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitXor: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.Mod: ast.Add, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult}


def annotated(tree):
    """Nodes to leave alone: annotations, docstrings, messages of exceptions."""
    out = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            if getattr(n, f, None) is not None:
                out |= {id(x) for x in ast.walk(getattr(n, f))}
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            if not isinstance(n, ast.Assert):
                out |= {id(x) for x in ast.walk(n) if x is not n}
        if isinstance(n, ast.Call) and getattr(n.func, "attr", "") in ("warn", "debug", "info", "error"):
            out |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.JoinedStr):
            out |= {id(x) for x in ast.walk(n)}
    return out


def mutants(rel):
    """Yield (line, what, new source segment edits) as (lineno, description, new tree)."""
    src = open(f"{REPO}/{SRC}/{rel}").read()
    tree = ast.parse(src)
    skip = annotated(tree)
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        for what, edit in options(n):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            try:
                edit(t, m)
                ast.fix_missing_locations(t)
                new = ast.unparse(m)
            except Exception:  # noqa: BLE001
                continue
            yield n.lineno, what, (i, t)


def replace(t, old, new):
    for p in ast.walk(t):
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
                return
            if isinstance(v, list):
                for k, x in enumerate(v):
                    if x is old:
                        v[k] = new
                        return


def options(n):
    if isinstance(n, ast.Compare):
        for k, op in enumerate(n.ops):
            if type(op) in CMP:
                def e(t, m, k=k):
                    m.ops[k] = CMP[type(m.ops[k])]()
                yield f"cmp {type(op).__name__}", e
    if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
        def e(t, m):
            m.op = BIN[type(m.op)]()
        yield f"bin {type(n.op).__name__}", e
    if isinstance(n, ast.BoolOp):
        def e(t, m):
            m.op = ast.And() if isinstance(m.op, ast.Or) else ast.Or()
        yield "boolop", e
        for k in range(len(n.values)):
            def e(t, m, k=k):
                del m.values[k]
                if len(m.values) == 1:
                    replace(t, m, m.values[0])
            yield f"drop operand {k}", e
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
        def e(t, m):
            replace(t, m, m.operand)
        yield "drop unary", e
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            def e(t, m):
                m.value = not m.value
            yield "flip bool", e
        elif isinstance(n.value, int):
            for d in (1, -1):
                def e(t, m, d=d):
                    m.value += d
                yield f"const {d:+d}", e
        elif isinstance(n.value, float):
            def e(t, m):
                m.value = m.value / 2 if m.value else .5
            yield "float", e
    if isinstance(n, (ast.If, ast.IfExp, ast.While)):
        for v in (True, False):
            if isinstance(n, ast.While) and v:
                continue
            def e(t, m, v=v):
                m.test = ast.Constant(v)
            yield f"cond {v}", e
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        def e(t, m):
            replace(t, m, ast.Pass())
        yield "delete statement", e
    if isinstance(n, (ast.Break, ast.Continue)):
        def e(t, m):
            replace(t, m, ast.Pass())
        yield "delete jump", e
    if isinstance(n, ast.Call):
        if len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred):
            def e(t, m):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            yield "swap args", e
        name = getattr(n.func, "attr", getattr(n.func, "id", ""))
        if name in ("copy", "deepcopy", "sorted", "list", "tuple", "set", "reversed", "array", "abs", "frozenset", "asarray") and n.args:
            def e(t, m):
                replace(t, m, m.args[0])
            yield f"drop {name}", e
        if name in ("copy", "items", "reset_index", "ravel") and not n.args and isinstance(n.func, ast.Attribute):
            def e(t, m):
                replace(t, m, m.func.value)
            yield f"drop .{name}", e
        for k in range(len(n.keywords)):
            def e(t, m, k=k):
                del m.keywords[k]
            yield f"drop kw {n.keywords[k].arg}", e
        if name in ("any", "all"):
            def e(t, m):
                f = m.func
                if isinstance(f, ast.Name):
                    f.id = "all" if f.id == "any" else "any"
                else:
                    f.attr = "all" if f.attr == "any" else "any"
            yield "any/all", e
    if isinstance(n, ast.Slice):
        for f in ("lower", "upper", "step"):
            if getattr(n, f) is not None:
                def e(t, m, f=f):
                    setattr(m, f, None)
                yield f"slice drop {f}", e
    if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
        pass
    if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
        for k, g in enumerate(n.generators):
            for c in range(len(g.ifs)):
                def e(t, m, k=k, c=c):
                    del m.generators[k].ifs[c]
                yield "drop filter", e
    if isinstance(n, ast.For) and n.orelse:
        def e(t, m):
            m.orelse = []
        yield "drop else", e


def sources(rel):
    """All distinct mutants of a file: (id, line, what, diff, source)."""
    src = open(f"{REPO}/{SRC}/{rel}").read()
    base = ast.unparse(ast.parse(src))
    seen = {base}
    for line, what, (i, t) in mutants(rel):
        new = ast.unparse(t)
        if new in seen:
            continue
        seen.add(new)
        d = "\n".join(l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm="", n=0) if not l.startswith(("---", "+++", "@@")))
        try:
            compile(new, rel, "exec")
        except Exception:  # noqa: BLE001
            continue
        yield hashlib.md5((rel + d + str(line)).encode()).hexdigest()[:10], line, what, d, new


def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"


def install(work, rel, new, old=None):
    with open(f"{work}/{SRC}/{rel}", "w") as f:
        f.write(new)


FAILING = None


def tests(work):
    env = dict(os.environ, PYTHONPATH=f"{work}/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    rc, o = run(". /opt/vp/env.sh; export PYTHONPATH=%s/src; ulimit -v 6000000; exec /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p no:xdist --timeout=60 -m 'not slow' "
                "-o python_files='test_*.py *_test.py *_tests.py' --continue-on-collection-errors -W ignore %s 2>&1 | tail -4" % (work, " ".join("--deselect '%s'" % f for f in FAILING)), work, env, 240)
    return "839 passed" in o, o[-300:]


def main(argv):
    global FAILING
    if argv[0] == "list":
        tot = 0
        for rel in CHECKS:
            k = len(list(sources(rel)))
            tot += k
            print(rel, k)
        print(tot)
    elif argv[0] == "tests":
        out = argv[1]
        j = int(argv[argv.index("-j") + 1]) if "-j" in argv else 8
        only = argv[argv.index("--only") + 1].split(",") if "--only" in argv else list(CHECKS)
        k, m = map(int, argv[argv.index("--stride") + 1].split("/")) if "--stride" in argv else (0, 1)
        FAILING = [l.strip() for l in open("/tmp/mut/failing.txt") if l.strip()]
        done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
        todo = [(rel, *s) for rel in only for s in sources(rel) if int(s[0], 16) % m == k and s[0] not in done]
        print(len(todo), "mutants", flush=True)
        todo.sort(key=lambda x: x[1])
        pool = Queue()
        for i in range(j):
            w = f"/tmp/mutw-t{i}"
            shutil.rmtree(w, ignore_errors=True)
            subprocess.run(["cp", "-a", REPO, w], check=True)
            pool.put(w)

        def one(x):
            rel, mid, line, what, d, new = x
            w = pool.get()
            try:
                orig = open(f"{w}/{SRC}/{rel}").read()
                install(w, rel, new)
                ok, o = tests(w)
                install(w, rel, orig)
            finally:
                pool.put(w)
            with open(out, "a") as f:
                if ok:
                    os.makedirs(os.path.dirname(out) + "/src", exist_ok=True)
                    open(f"{os.path.dirname(out)}/src/{mid}.py", "w").write(new)
                f.write(json.dumps(dict(id=mid, file=rel, line=line, what=what, diff=d, passes=ok, tail="" if ok else o[-160:])) + "\n")
            return ok
        with ThreadPoolExecutor(j) as ex:
            n = list(ex.map(one, todo))
        print(sum(n), "of", len(n), "pass the tests")
        for i in range(j):
            shutil.rmtree(f"/tmp/mutw-t{i}", ignore_errors=True)
    elif argv[0] == "checks":
        src, out = argv[1], argv[2]
        done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
        w = "/tmp/mutw-c"
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, w], check=True)
        import time
        while True:
            todo = [json.loads(l) for l in open(src)]
            todo = [t for t in todo if t["passes"] and t["id"] not in done]
            if not todo:
                if "--follow" not in argv:
                    break
                time.sleep(20)
                continue
            t = todo[0]
            done.add(t["id"])
            new = open(f"{os.path.dirname(src)}/src/{t['id']}.py").read()
            orig = open(f"{w}/{SRC}/{t['file']}").read()
            install(w, t["file"], new)
            env = dict(os.environ, MC_REPO=w, MC_EVIDENCE="/tmp/mut/ev", VERIF_SEED="1", VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1")
            res = []
            for c in CHECKS[t["file"]].split()[:4]:
                rc, o = run(f"{PY} {VERIF}/run.py {c}", VERIF, env, 900)
                res.append((c, rc, [l.strip() for l in o.splitlines() if l.strip().startswith("key=")][:1]))
                if rc == 1:
                    break
            install(w, t["file"], orig)
            t["checks"] = res
            t["caught"] = any(r[1] == 1 for r in res)
            with open(out, "a") as f:
                f.write(json.dumps(t) + "\n")
            print("caught" if t["caught"] else "MISSED", t["file"], t["line"], t["what"], res, flush=True)
            if not t["caught"]:
                print(t["diff"], flush=True)
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
