#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NA  # noqa

TECH = ("symbolic execution of the real Python source (numpy/dask/numba "
        "emulated over z3 terms), SMT verdict over all values in bounds, "
        "counterexample replayed on the real code")
NOTE = ("Every path of the listed functions within the stated sizes is "
        "executed over exact real arithmetic and each assertion is decided "
        "by z3 (or by polynomial normal form to identity before z3). "
        "Trusted: z3, the engine's model of numpy/dask/numba semantics "
        "(cross-validated on every run by replaying witnesses on the real "
        "code), real arithmetic in place of floating point; sizes beyond "
        "the bounds are not covered. ")

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for p in PROPS + [x[0] for x in NA]:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs"]), text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         mechanism=[dict(name=a, where=w)
                                    for a, w in p["mech"]]))) + "\n")
man = dict(version=1, setup_cmd="true", checks=[
    dict(property=p["id"],
         quick_cmd="bash check.sh %s quick" % p["id"],
         thorough_cmd="bash check.sh %s thorough" % p["id"],
         technique=TECH, level="model_checking",
         level_note=NOTE + p.get("note", "")) for p in PROPS],
    not_applicable=[dict(property=x[0]["id"], reason=x[1]) for x in NA])
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")

sys.path.insert(0, os.path.join(HERE, ".."))
import glob  # noqa
import importlib  # noqa
from engine.harness import SCENARIOS  # noqa
for f in sorted(glob.glob(os.path.join(HERE, "..", "checks", "*.py"))):
    m = os.path.basename(f)[:-3]
    if m not in ("__init__", "common", "stubs"):
        importlib.import_module("checks." + m)
with open(os.path.join(HERE, "..", "SCENARIOS.md"), "w") as f:
    f.write("# Scenarios and bounds\n\nGenerated by tools/genmeta.py from "
            "the checks. Thorough runs include the quick scenarios.\n")
    for p in PROPS:
        f.write("\n## %s %s\n\n" % (p["id"], p["title"]))
        for s in SCENARIOS.get(p["id"], []):
            f.write("* `%s`%s: %s\n" % (
                s.name, "" if s.tier == "quick" else " (thorough)",
                s.bounds))
