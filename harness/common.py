"""Shared machinery of the checks.

A check is a module checks/<ID>.py with a function run(ck).  It is started by
harness/main.py, in a child process under a watchdog, with the Python that the
library is installed for.  The pieces here:

  ck.tlc(...)      run TLC on a specification of specs/, collect what it emits
  ck.real(...)     call the code under test; everything it raises is data
  ck.fail(...)     record a violation (the run goes on until ck.done())
  close(...)       comparison of a real value with what the specification says
"""
import hashlib
import json
import math
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"


class MachineryError(Exception):
    """Something of ours is broken; never a verdict about the code."""


class Hang(BaseException):
    """The code under test does not come back."""


def _alarm(signum, frame):
    raise Hang("no answer in time")


class Raised(object):
    """The code under test raised: the exception is an observable result."""

    def __init__(self, exc):
        self.kind = type(exc).__name__
        self.bases = tuple(c.__name__ for c in type(exc).__mro__)
        self.text = str(exc)[:300]
        self.tb = traceback.format_exc()[-1500:]

    def __array__(self, dtype=None, copy=None):
        # arithmetic with it gives something that no result is close to
        return np.full((1,) * 7, np.nan)

    def isa(self, *names):
        return any(n in self.bases for n in names)

    def __repr__(self):
        return "<raised %s: %s>" % (self.kind, self.text)


def is_raised(x, *names):
    return isinstance(x, Raised) and (not names or x.isa(*names))


# --------------------------------------------------------------- comparison
def tonum(x):
    """Specification numbers: ints, <<num,den>> rationals, the string 'nan'."""
    if isinstance(x, str):
        if x == "nan":
            return float("nan")
        if x == "inf":
            return float("inf")
        raise MachineryError("not a number: %r" % (x,))
    if isinstance(x, Fraction):
        return float(x)
    return float(x)


def rat(p):
    """<<num,den>> to float; a zero denominator is not-a-number."""
    if p[1] == 0:
        return float("nan")
    return p[0] / p[1]


def unit(rng):
    """A unit of measurement: mostly one, or a power of two far from it (scaling by it is exact)."""
    return 2.0 ** int([0, 0, 0, -30, -45, 20, 40][rng.randint(7)])


def amount(rng):
    """A unit for values: also one that leaves the values without an end in binary."""
    return unit(rng) * float([1, 0.1, 1 / 3.0][rng.randint(3)])


def close(got, want, rtol=1e-9, atol=1e-10):
    """True if the arrays agree: same shape, NaN where NaN is wanted."""
    if isinstance(got, Raised):
        return False
    try:
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
    except Exception:
        return False
    if g.shape != w.shape:
        return False
    return bool(np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True))


def same_ints(got, want):
    try:
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            return False
        return bool(np.all(g.astype(float) == w.astype(float)))
    except Exception:
        return False


def jsonable(x, depth=0):
    if isinstance(x, Raised):
        return {"raised": x.kind, "text": x.text}
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:60].tolist(), depth + 1)}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, float):
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        return x
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, complex):
        return [jsonable(x.real), jsonable(x.imag)]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:500]]
    return repr(x)[:300]


def arrays(x):
    """The plain arrays among the arguments of a call."""
    if type(x) is np.ndarray:
        return [x] if x.dtype.kind in "biufc" and x.size < 4000000 else []
    if type(x) in (list, tuple):
        return [w for v in x[:2000] if type(v) in (np.ndarray, list, tuple) for w in arrays(v)]
    return []


# ------------------------------------------------------------------ the check
class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.np_rng = np.random.RandomState((seed * 7919 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16)) % (2**31))
        self.t0 = time.time()
        self.violations = []
        self.states = 0
        self.generated = 0
        self.replayed = 0
        self.evals = 0
        self.samples = []
        self.models = []
        self.assumptions = []
        self.known_hit = []
        self.tmp = tempfile.mkdtemp(prefix="vk_%s_" % pid)
        self.replay_dir = os.path.join(OUT, "replays")
        self.known = load_known(pid)
        self.progress = os.environ.get("VERIF_PROGRESS")
        self.exhaustive = True
        self.max_violations = 5
        self.call_limit = 90.0
        self.lay_rng = random.Random("layout/%s/%d" % (pid, seed))
        self.lay = True   # arrays are given in other memory layouts now and then
        self.pure = True  # arrays given must not be changed
        signal.signal(signal.SIGALRM, _alarm)

    # ---- sizes
    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- calling the code under test
    def mark(self, text):
        """Tell the watchdog which case the code under test is working on."""
        if self.progress:
            with open(self.progress, "w") as f:
                f.write(text)

    def layout(self, x):
        """The same array, laid out in memory in one way or another (or as it is)."""
        if type(x) is not np.ndarray or x.dtype.kind not in "biufc" or not 1 < x.size < 4000000:
            return x
        how = self.lay_rng.randrange(4)
        if how == 1 and x.ndim > 1:
            return np.array(x, order="F")
        if how == 2:
            wide = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype)
            wide[..., ::2] = x
            return wide[..., ::2]
        if how == 3:
            return np.array(x[::-1])[::-1]
        return x

    def laid(self, x):
        if type(x) in (list, tuple):
            y = [self.laid(v) for v in x]
            return x if all(p is q for p, q in zip(x, y)) else type(x)(y)
        return self.layout(x)

    def real(self, fn, *a, **k):
        """Call the code under test, which has to give the same however its arrays lie in memory
        and to leave them alone.  Whatever it raises is its answer."""
        if self.lay and self.lay_rng.randrange(2):
            a = [self.laid(v) for v in a]
            k = {n: self.laid(v) for n, v in k.items()}
        seen = [(v, v.tobytes()) for v in arrays(a + type(a)(k.values()))] if self.pure else ()
        out = self.as_given(fn, *a, **k)
        for v, was in seen:
            if v.tobytes() != was:
                self.fail("arguments are left alone", fn=getattr(fn, "__name__", repr(fn)[:80]), before=np.frombuffer(was, dtype=v.dtype).reshape(v.shape), after=v)
        return out

    def as_given(self, fn, *a, **k):
        self.evals += 1
        if self.progress:
            self.mark("REAL %s %s" % (getattr(fn, "__name__", repr(fn)[:80]), case_text(a, k)))
        signal.setitimer(signal.ITIMER_REAL, self.call_limit)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    return fn(*a, **k)
        except (KeyboardInterrupt, MachineryError):
            raise
        except SystemExit as e:
            return Raised(e)
        except BaseException as e:  # noqa: B902 - an answer, not our failure
            return Raised(e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if self.progress:
                self.mark("HARNESS")

    # ---- verdicts
    def fail(self, clause, **case):
        """The named clause of the property does not hold for this case."""
        rec = {"property": self.pid, "clause": clause, "case": jsonable(case)}
        for k in self.known:
            if k.get("clause") == clause and matches(k.get("match", {}), rec["case"]):
                if k["id"] not in self.known_hit:
                    self.known_hit.append(k["id"])
                return
        self.violations.append(rec)
        if len(self.violations) >= self.max_violations:
            raise Enough()

    def expect(self, ok, clause, **case):
        if not ok:
            self.fail(clause, **case)
        return ok

    def traced(self, n=1):
        self.replayed += n

    def sample(self, **s):
        if len(self.samples) < 4:
            self.samples.append(jsonable(s))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # ---- TLC
    def tlc(self, module, cfg, data=None, defs="", workers=1, timeout=600, expect="ok",
            simulate=None, extra=(), name=None, heap="3g"):
        """Run TLC on specs/<module>.tla.

        cfg    text of the configuration file
        data   object the specification reads as JsonDeserialize("data.json")
        defs   extra definitions: a module MC extending <module> is then run
        What the specification emits with Emit(x) (see specs/Out.tla) is
        returned, in order, as Python objects in .out
        """
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.tmp)
        for f in os.listdir(os.path.join(VERIF, "specs")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "specs", f), d)
        if data is not None:
            with open(os.path.join(d, "data.json"), "w") as f:
                json.dump(data, f)
        main = module
        if defs:
            main = "MC_" + module
            with open(os.path.join(d, main + ".tla"), "w") as f:
                f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (main, module, defs))
        with open(os.path.join(d, main + ".cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xss64m", "-cp", CP, "tlc2.TLC",
               "-config", main + ".cfg", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-nowarning", "-fp", "1"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += list(extra) + [main + ".tla"]
        t = time.time()
        self.mark("HARNESS")
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        text = p.stdout.decode("utf-8", "replace")
        out = []
        longest = 0
        try:
            for fn in sorted(os.listdir(d)):
                if fn.startswith("out") and fn.endswith(".ndjson"):
                    with open(os.path.join(d, fn)) as f:
                        for line in f:
                            line = line.strip()
                            longest = max(longest, len(line))
                            if line:
                                v = json.loads(line)
                                out.append(json.loads(v) if isinstance(v, str) else v)
        except ValueError:
            # lines of more than 8192 characters are not written at once: two workers may have mixed theirs up
            if workers == 1:
                raise
            shutil.rmtree(d, ignore_errors=True)
            return self.tlc(module, cfg, data, defs, 1, timeout, expect, simulate, extra, name, heap)
        gen = dist = 0
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct", text):
            pass
        if m:
            gen, dist = (int(g.replace(",", "")) for g in m.groups())
        else:
            for m in re.finditer(r"(?:Progress|The number of states generated): ?([\d,]+)", text):
                gen = dist = int(m.group(1).replace(",", ""))
        r = TlcResult(p.returncode, text, out, gen, dist)
        self.states += dist
        self.generated += gen
        self.models.append({"module": name or module, "states": dist, "generated": gen, "emitted": len(out),
                            "wall_s": round(time.time() - t, 2), "exit": p.returncode})
        shutil.rmtree(d, ignore_errors=True)
        if expect == "ok" and p.returncode != 0:
            raise MachineryError("TLC exit %d on %s:\n%s" % (p.returncode, module, text[-3500:]))
        if os.environ.get("VERIF_VERBOSE"):
            print("TLC %s: %d/%d states, %d emitted, %.1f s%s" % (module, gen, dist, len(out), time.time() - t,
                                                                  " LONG LINES (%d)" % longest if longest > 8000 and workers > 1 else ""))
        return r

    # ---- the end
    def write_evidence(self, status):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.generated,
                "traces_validated_against_impl": self.replayed,
                "evaluations": self.evals,
                "samples": self.samples or [{"note": "no sample"}],
                "models": self.models,
                "known_findings_seen": self.known_hit,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        path = os.path.join(OUT, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)

    def report(self):
        for k in self.known:
            if k["id"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for v in self.violations:
            os.makedirs(self.replay_dir, exist_ok=True)
            h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(self.replay_dir, "%s-%s.json" % (self.pid, h))
            v = dict(v, seed=self.seed, tier=self.tier)
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("\nVIOLATION property=%s replay=%s" % (self.pid, path))
            print("  clause: %s" % v["clause"])
            print("  case: %s" % json.dumps(v["case"])[:1500])
        sys.stdout.flush()

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


class Enough(Exception):
    pass


class TlcResult(object):
    def __init__(self, code, text, out, generated, distinct):
        self.code, self.text, self.out = code, text, out
        self.generated, self.distinct = generated, distinct

    def violated(self):
        m = re.search(r"Invariant (\S+) is violated", self.text)
        return m.group(1) if m else None


def case_text(a, k):
    try:
        return json.dumps(jsonable([list(a), k]))[:3000]
    except Exception:
        return "?"


def load_known(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def matches(m, case):
    """Every key of the listed finding is in the case, with that value."""
    return all(k in case and case[k] == v for k, v in m.items())


def nonvacuous(cond, what):
    if not cond:
        raise MachineryError("vacuous: " + what)
