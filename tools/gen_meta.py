#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = "/opt/venv/bin/python run.py"
S = "src/plaquette/"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level=None, note=None,
         state=(), observe=(), na=None):
    PROPS.append(dict(
        row=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                 why_tests_cant=why,
                 anchors=dict(files=[S + f for f in files],
                              mechanism=[dict(name=n, where=S + w) for n, w in mech],
                              state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                              observe_at=list(observe), hook_needed=None)),
        technique=technique, level=level, note=note, na=na))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["row"]["title"]) <= 80, p["row"]["title"]
        f.write(json.dumps(p["row"]) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["row"]["id"]
    if p["na"]:
        na.append(dict(property=i, reason=p["na"]))
    elif os.path.exists(os.path.join(ROOT, "mc", "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"{RUN} {i} --tier quick",
                           thorough_cmd=f"{RUN} {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python run.py setup", checks=checks, not_applicable=na),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties;", len(checks), "checks; na:", [x["property"] for x in na])
