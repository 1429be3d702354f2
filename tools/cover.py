"""tools/cover.py: which lines of skbeam no check runs (run with the code's Python).

Every check runs once under coverage.py in a child; prints the lines missed.
"""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


def one(pid, data):
    import coverage

    c = coverage.Coverage(data_file=data, include=[REPO + "/skbeam/*"], omit=["*/tests/*"], branch=True)
    c.start()
    for d in ("harness", "checks"):
        sys.path.insert(0, os.path.join(VERIF, d))
    import ext

    ext.install(pid)
    import common

    ck = common.Check(pid, "quick", 1)
    try:
        __import__(pid).run(ck)
    except BaseException as e:
        print(pid, repr(e)[:300])
    ck.cleanup()
    c.stop()
    c.save()
    os._exit(0)


if __name__ == "__main__":
    if len(sys.argv) == 3:
        one(*sys.argv[1:])
    d = tempfile.mkdtemp(prefix="cover_")
    ids = sorted(f[:-3] for f in os.listdir(VERIF + "/checks") if f[0].isupper() and f.endswith(".py"))
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", VERIF_OUT=d, MPLBACKEND="Agg", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="4", OPENBLAS_NUM_THREADS="1")
    for k in range(0, len(ids), 4):
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), i, d + "/.coverage." + i], env=env) for i in ids[k:k + 4]]
        for p in ps:
            p.wait()
    import coverage

    c = coverage.Coverage(data_file=d + "/all", include=[REPO + "/skbeam/*"], omit=["*/tests/*"], branch=True)
    c.combine([os.path.join(d, f) for f in os.listdir(d) if f.startswith(".coverage.")], keep=True)
    c.report(show_missing=True, skip_covered=False)
