#!/usr/bin/env python3
"""Turn seed descriptions into /verif/seeded/<id>/ and try them out in scratch copies.

    seed.py SPEC.py... [--checks P01,P02] [--no-tests] [--tier quick]

A SPEC defines PROP, FILE (under src/plaquette), EDITS [(old, new), ...], NEEDS, BREAKS and
DEMO (python source; must pass on the unchanged tree and fail with the change).
"""
import json
import os
import subprocess
import sys
import shutil
from concurrent.futures import ThreadPoolExecutor

REPO, ROOT = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["passed"]) if os.path.exists("/opt/vp/BASELINE.json") and "passed" in json.load(open("/opt/vp/BASELINE.json")) else None


def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def work(path, checks, tests, tier):
    ns = {}
    exec(open(path).read(), ns)
    sid = os.path.basename(path)[:-3]
    out = os.path.join(ROOT, "seeded", sid)
    x = f"/tmp/seedx-{sid}"
    shutil.rmtree(x, ignore_errors=True)
    sh(f"cp -a {REPO} {x}")
    try:
        edits = ns["EDITS"] if isinstance(ns["EDITS"], dict) else {ns["FILE"]: ns["EDITS"]}
        for f, es in edits.items():
            f = f"{x}/src/plaquette/{f}"
            s = open(f).read()
            for old, new in es:
                if s.count(old) != 1:
                    return sid, f"EDIT occurs {s.count(old)} times: {old[:60]!r}"
                s = s.replace(old, new)
            open(f, "w").write(s)
        _, diff = sh("git diff", cwd=x)
        # every removed line has to be from the original repository
        _, orig = sh("git rev-list --max-parents=0 HEAD", cwd=x)
        notes = []
        for f in edits:
            _, bl = sh(f"git blame -s HEAD -- src/plaquette/{f}", cwd=x)
            mine = {l.split(")", 1)[1][1:] for l in bl.splitlines() if not l.startswith("^")}
            for l in diff.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in mine:
                    notes.append("removes a line of a fix: " + l)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(ns["DEMO"].lstrip())
        open(out + "/demo.sh", "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        rc0, o0 = sh(f"bash {out}/demo.sh", cwd=REPO, timeout=300)
        rc1, o1 = sh(f"bash {out}/demo.sh", cwd=x, timeout=300)
        notes.append(f"demo clean rc={rc0} patched rc={rc1}" + ("" if rc0 == 0 and rc1 else "  <-- BAD\n" + o0[-600:] + o1[-600:]))
        if tests:
            _, o = sh(". /opt/vp/env.sh; cd %s; PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 -m 'not slow' "
                      "-o python_files='test_*.py *_test.py *_tests.py' --continue-on-collection-errors -W ignore 2>&1 | tail -12" % (x, x), env={})
            last = o.strip().splitlines()[-1]
            notes.append("tests: " + last + ("" if "839 passed" in last else "  <-- BAD\n" + o[-900:]))
        for c in checks or [ns["PROP"]]:
            rc, o = sh(f"{PY} {ROOT}/run.py {c} --tier {tier}", cwd=ROOT, env=dict(MC_REPO=x, MC_EVIDENCE=f"/tmp/ev-{sid}", VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            notes.append(f"check {c}: rc={rc} {'CAUGHT' if rc == 1 and v else '<-- MISSED' if rc == 0 else '<-- ERROR' + o[-800:]} {v[:1]}")
    finally:
        shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(f"/tmp/ev-{sid}", ignore_errors=True)
    return sid, "\n   ".join(notes)


if __name__ == "__main__":
    a = sys.argv[1:]
    checks = a[a.index("--checks") + 1].split(",") if "--checks" in a else None
    tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
    files = [f for f in a if f.endswith(".py")]
    with ThreadPoolExecutor(2) as ex:
        for sid, r in ex.map(lambda f: work(f, checks, "--no-tests" not in a, tier), files):
            print(sid, "\n  ", r, flush=True)
