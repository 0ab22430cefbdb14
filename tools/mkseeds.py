#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds.py: mkseeds.py [ID...]"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa
OUT = os.path.join(HERE, "..", "seeded")
W = "/tmp/mkseeds_wt"
DEMO = """#!/bin/bash
# exit 0: behaves as it should; nonzero: broken
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$D"
exec /opt/venv/bin/python -W ignore "$D/demo.py"
"""
for s in SEEDS:
    if sys.argv[1:] and s["id"] not in sys.argv[1:]:
        continue
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W)
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=W)
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(OUT, s["id"])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "diff"], cwd=W)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(
        ("import afshim  # noqa\n" if s.get("shim") else "") +
        s["demo"].lstrip())
    if s.get("shim"):
        shutil.copy(os.path.join(HERE, "afshim.py"), d)
    with open(os.path.join(d, "meta.json"), "w") as fh:
        json.dump({"property": s["prop"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]}, fh, indent=1)
        fh.write("\n")
    # confirm the demonstration
    for wd, want in (("/repo", 0), (W, 1)):
        r = subprocess.run(["bash", os.path.abspath(d) + "/demo.sh"], cwd=wd,
                           capture_output=True, text=True, timeout=300)
        ok = (r.returncode == 0) == (want == 0)
        print(s["id"], wd, r.returncode, "ok" if ok else
              "BAD\n" + r.stderr[-1500:])
    shutil.rmtree(W, ignore_errors=True)
