#!/usr/bin/env python3
"""adv.py FILE.py [-j N]: try changes without demonstrations first.

FILE.py defines ADV = [(property, file, old, new, note)].  Each is applied to a scratch copy of
/repo, the stable tests are run, then the property's quick check.  Missed ones are worth planting.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def one(a):
    pid, f, old, new, note = a
    t = tempfile.mkdtemp(prefix="adv_")
    try:
        subprocess.run(["cp", "-a", "/repo", t + "/r"], check=True)
        p = os.path.join(t, "r", f)
        s = open(p).read()
        if s.count(old) != 1:
            return "BADEDIT %s %s (%d)" % (pid, note, s.count(old))
        open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, VERIF_REPO=t + "/r", VERIF_OUT=t + "/o")
        q = subprocess.run(["bash", ROOT + "/check.sh", pid, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = q.stdout.decode(errors="replace")
        clause = [l.strip() for l in out.splitlines() if "clause:" in l][:1]
        tests = ""
        if "-t" in sys.argv:
            env = dict(os.environ, PYTHONPATH=t + "/r", MPLBACKEND="Agg")
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "skbeam"], cwd=t + "/r", env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            tests = " tests:" + r.stdout.decode(errors="replace").strip().splitlines()[-1][:60]
        return "%-7s %s %s %s%s" % ({0: "MISSED", 1: "caught" if "\nVIOLATION property=" in out else "NOLINE"}.get(q.returncode, "RC%d" % q.returncode), pid, note, clause if q.returncode == 1 else out[-200:] if q.returncode else "", tests)
    finally:
        shutil.rmtree(t, ignore_errors=True)


j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
todo = runpy.run_path(sys.argv[1])["ADV"]
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, todo):
        print(r, flush=True)
