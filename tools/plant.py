#!/usr/bin/env python3
"""plant.py FILE.py: write seeded/<id>/ from a description.

FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].
The patch is made in a scratch clone of /repo's HEAD.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd = the repository, after its build
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
for bug in runpy.run_path(sys.argv[1])["BUGS"]:
    t = tempfile.mkdtemp(prefix="plant_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for f, old, new in bug["edits"]:
            p = os.path.join(t, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (bug["id"], f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(ROOT, "seeded", bug["id"])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "diff"], cwd=t + "/r", stdout=subprocess.PIPE, check=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    print(bug["id"])
