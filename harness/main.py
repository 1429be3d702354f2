"""harness/main.py <ID> [quick|thorough]: run one check under a watchdog.

Outcomes: 0 the property held; 1 and a VIOLATION line; 2 our machinery failed.
The check itself runs in a child process, so that code under test that
crashes, hangs or exits is a violation that gets reported, not a lost run.
"""
import json
import os
import signal
import subprocess
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.environ.get("VERIF_OUT", VERIF)


def child(pid, tier, seed):
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    import faulthandler

    faulthandler.enable()
    import ext

    try:
        ext.install(pid)
    except BaseException:
        traceback.print_exc()
        os._exit(2)
    import common

    ck = common.Check(pid, tier, seed)
    code = 0
    try:
        mod = __import__(pid)
        try:
            mod.run(ck)
        except common.Enough:
            pass
        ck.report()
        ck.write_evidence("done")
        code = 1 if ck.violations else 0
        if os.environ.get("VERIF_VERBOSE"):
            print("%s: states=%d replayed=%d evals=%d wall=%.1f" % (
                pid, ck.states, ck.replayed, ck.evals, __import__("time").time() - ck.t0))
    except BaseException as exc:
        traceback.print_exc()
        # an error inside the code under test, in a call that the check made without a net
        ours = [f.filename for f in traceback.extract_tb(exc.__traceback__)
                if f.filename.startswith((VERIF + "/", common.REPO + "/", "skbeam"))]
        if ours and not ours[-1].startswith(VERIF + "/") and not isinstance(exc, (common.MachineryError, KeyboardInterrupt, MemoryError)):
            try:
                ck.fail("the call gives an answer", error="%s: %s" % (type(exc).__name__, exc), where=traceback.format_exc()[-1500:])
            except common.Enough:
                pass
        # an answer of another form than the property speaks of: the check cannot even read it
        elif isinstance(exc, (TypeError, ValueError, LookupError, ArithmeticError, AttributeError)) \
                and not isinstance(exc, common.MachineryError) and "module '" not in str(exc) and ck.replayed + ck.evals > 0:
            try:
                ck.fail("the answer has the form expected", error="%s: %s" % (type(exc).__name__, exc), where=traceback.format_exc()[-1500:])
            except common.Enough:
                pass
        # what was already established about the code stands
        try:
            ck.report()
            ck.write_evidence("error")
        except BaseException:
            pass
        code = 1 if ck.violations else 2
    finally:
        ck.cleanup()
    sys.stdout.flush()
    os._exit(code)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if os.environ.get("VERIF_CHILD"):
        child(pid, tier, seed)
    limit = 840 if tier == "quick" else 6 * 3600
    fd, prog = tempfile.mkstemp(prefix="vprog_")
    os.close(fd)
    env = dict(os.environ, VERIF_CHILD="1", VERIF_PROGRESS=prog, VERIF_SEED=str(seed), VERIF_TIER=tier)
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), pid, tier], env=env, start_new_session=True)
    why = None
    try:
        rc = p.wait(timeout=limit)
        if rc < 0:
            why = "the process died of signal %d" % -rc
        elif rc not in (0, 1, 2):
            why = "the process exited with %d" % rc
    except subprocess.TimeoutExpired:
        why = "no answer within %d s" % limit
        rc = -9
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    if why:
        with open(prog) as f:
            where = f.read()
        # memory damaged by an earlier call may show only later
        crash = -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) and where.startswith("HARNESS")
        if where.startswith("REAL") or crash:
            os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
            path = os.path.join(OUT, "replays", "%s-crash.json" % pid)
            with open(path, "w") as f:
                json.dump({"property": pid, "clause": "the call returns", "case": {"why": why, "call": where[5:]}}, f)
            os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
            with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": 0.0,
                           "violations": 1,
                           "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                                        "samples": [{"crash": why, "call": where[:500]}]}}, f)
            print("\nVIOLATION property=%s replay=%s" % (pid, path))
            print("  clause: the call returns (%s) during %s" % (why, where[5:600]))
            rc = 1
        else:
            print("the check itself failed: %s (%s)" % (why, where[:200]))
            rc = 2
    os.unlink(prog)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
