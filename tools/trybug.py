#!/usr/bin/env python3
"""trybug.py ID...: confirm planted bugs in scratch copies of /repo.

For each seeded/<ID>: the patch applies, the stable tests still pass, demo.sh
exits 0 without and non-zero with it; then run the check of its property on
the changed copy.  Prints one line per bug.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def env(copy):
    return dict(os.environ, PYTHONPATH=copy + ":/opt/vp/plugin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="4", VERIF_REPO=copy)


def extensions(copy):
    """Rebuild in place what the patch made stale."""
    code = ("import sys; sys.path.insert(0, %r); import ext, shutil, os\n"
            "for n, s in ext.EXT.items():\n"
            "    so = ext.build(n, s); dst = os.path.join(ext.REPO, s['so'])\n"
            "    if os.path.realpath(so) != os.path.realpath(dst): shutil.copy(so, dst)\n") % (ROOT + "/harness")
    subprocess.run([PY, "-c", code], env=env(copy), check=True)


def tests(copy):
    x = os.path.join(copy, "junit_vp.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=120",
                    "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x],
                   cwd=copy, env=env(copy), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if not any(t.tag in ("failure", "error", "skipped") for t in c):
            ok.add((c.get("classname", ""), c.get("name", "")))
    return ok


def demo(copy, d):
    t = tempfile.mkdtemp(prefix="demo_")
    try:
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), t)
        e = {k: v for k, v in env(copy).items() if not k.startswith("VERIF")}
        e.pop("PYTHONPATH")
        return subprocess.run(["bash", os.path.join(t, "demo.sh")], cwd=copy, env=e, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, timeout=300)
    finally:
        shutil.rmtree(t, ignore_errors=True)


def one(bid):
    d = os.path.join(ROOT, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    copy = tempfile.mkdtemp(prefix="tb_%s_" % bid)
    shutil.rmtree(copy)
    out = dict(id=bid, property=meta["property"])
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=copy, check=True)
        extensions(copy)
        out["clean"] = demo(copy, d).returncode
        before = tests(copy)
        p = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy, stderr=subprocess.PIPE)
        if p.returncode:
            out["error"] = "patch does not apply: " + p.stderr.decode()
            return out
        extensions(copy)
        after = tests(copy)
        out["tests_lost"] = sorted(str(x) for x in before - after if "auto_find_center" not in x[1])  # random, and not ours
        r = demo(copy, d)
        out["bug"] = r.returncode
        o = tempfile.mkdtemp(prefix="tbo_")
        c = subprocess.run(["bash", os.path.join(ROOT, "check.sh"), meta["property"], "quick"], env=dict(env(copy), VERIF_OUT=o),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        shutil.rmtree(o, ignore_errors=True)
        out["check"] = c.returncode
        out["what"] = [x for x in c.stdout.decode().splitlines() if "clause" in x][:1] or c.stdout.decode()[-300:]
        out["good"] = out["clean"] == 0 and out["bug"] != 0 and not out["tests_lost"]
        out["caught"] = c.returncode == 1 and ("\nVIOLATION property=" + meta["property"]) in "\n" + c.stdout.decode(errors="replace")
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    return out


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for o in ex.map(one, ids):
            print("%-24s %-4s demo=%s/%s lost=%s good=%s caught=%s %s" % (
                o["id"], o["property"], o.get("clean"), o.get("bug"), o.get("tests_lost"), o.get("good"), o.get("caught"),
                str(o.get("error") or o.get("what"))[:150]))
            sys.stdout.flush()
            f = os.path.join(ROOT, "tools", "caught.json")
            c = json.load(open(f)) if os.path.exists(f) else {}
            if o.get("good"):
                c[o["id"]] = o["property"] if o.get("caught") else "MISSED"
            else:
                c.pop(o["id"], None)
            json.dump(c, open(f, "w"), indent=1, sort_keys=True)
