#!/usr/bin/env python3
"""Entry point: run.py <PROPERTY> [--tier quick|thorough] | run.py replay <file>.

Re-executes itself under /opt/venv/bin/python with a fixed, minimal environment so
that nothing about the caller's shell (hash seed, thread pools, locale) is part of
the explored system.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
FIXED = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "MPLCONFIGDIR": "/tmp/mc-mplconfig",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "RAYON_NUM_THREADS": "1",
    "PYTHONWARNINGS": "ignore",
}

if __name__ == "__main__":
    if any(os.environ.get(k) != v for k, v in FIXED.items()) or not os.environ.get("_MC_REEXEC"):
        env = dict(os.environ)
        env.update(FIXED)
        env["_MC_REEXEC"] = "1"
        env.pop("PYTHONPATH", None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__), *sys.argv[1:]], env)
    repo = os.environ.get("MC_REPO", "/repo")
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(repo, "src"))
    from mc import core

    sys.exit(core.main(sys.argv[1:]))
