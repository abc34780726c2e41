"""Developer aid: time the work items of a check serially (first of each function)."""
import sys, time, importlib
from . import core
def main(p, tier):
    m = importlib.import_module(f"mc.checks.{p}"); core._MOD = m
    seen = {}
    for it in m.plan(tier):
        seen.setdefault(it[0], []).append(it)
    for k, v in seen.items():
        t = time.time(); r = core._work((0, *v[-1], 900)); dt = time.time() - t
        print(f"{k:20s} items={len(v):5d} last={dt:7.2f}s est_total/8={dt*len(v)/8:7.1f}s {str(v[-1])[:60]} {dict(r[1])} {r[3][:1]} {r[5] or ''}")
