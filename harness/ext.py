"""The compiled extensions, from the current sources of the tree under test.

skbeam.ext.ctrans and skbeam.core.accumulators.histogram are looked up here
first.  The library built in the tree is used only if the tree's build stamp
says it was made from exactly the present sources; otherwise the extension is
compiled out of tree, into a cache folder keyed by the content of its sources.
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")

EXT = {
    "skbeam.ext.ctrans": dict(srcs=["src/ctrans.c", "src/ctrans.h"], so="skbeam/ext/ctrans" + SUFFIX),
    "skbeam.core.accumulators.histogram": dict(
        srcs=["skbeam/core/accumulators/histogram.pyx"], so="skbeam/core/accumulators/histogram" + SUFFIX
    ),
}


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def extra_sources(spec):
    d = os.path.dirname(os.path.join(REPO, spec["srcs"][0]))
    out = set(spec["srcs"])
    for f in os.listdir(d):
        if f.endswith((".h", ".pxd", ".pxi")) or (spec["srcs"][0].startswith("src/") and f.endswith(".c")):
            out.add(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def stamped(spec):
    """The tree's own .so, if its stamp vouches for it."""
    try:
        with open(os.path.join(REPO, "build/vp.stamp")) as f:
            lines = set(x.rstrip("\n") for x in f)
        so = os.path.join(REPO, spec["so"])
        for rel in extra_sources(spec) + [spec["so"]]:
            if "%s  %s" % (sha(os.path.join(REPO, rel)), rel) not in lines:
                return None
        return so
    except OSError:
        return None


def build(name, spec):
    so = stamped(spec)
    if so:
        return so
    srcs = extra_sources(spec)
    key = hashlib.sha256("".join(sha(os.path.join(REPO, s)) for s in srcs).encode()).hexdigest()[:20]
    cache = os.path.join(VERIF, ".extcache", name + "-" + key)
    out = os.path.join(cache, name.split(".")[-1] + SUFFIX)
    if os.path.exists(out):
        return out
    import numpy as np

    os.makedirs(cache, exist_ok=True)
    d = tempfile.mkdtemp(prefix="vext_")
    try:
        base = name.split(".")[-1]
        inc = ["-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(), "-I" + os.path.join(REPO, "src")]
        csrc = os.path.join(REPO, spec["srcs"][0])
        if csrc.endswith(".pyx"):
            pyx = os.path.join(d, base + ".pyx")
            for s in srcs:
                shutil.copy(os.path.join(REPO, s), d)
            code = (
                "from Cython.Compiler.Main import compile as c; import sys;"
                "from Cython.Compiler.Options import CompilationOptions as O;"
                "r = c([%r], O(language_level=3)); sys.exit(1 if r.num_errors else 0)" % pyx
            )
            subprocess.run([sys.executable, "-c", code], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
            csrc = os.path.join(d, base + ".c")
        extra = [x for x in extra_sources(spec) if x.endswith(".c") and x != spec["srcs"][0]] if name.endswith("ctrans") else []
        cmd = ["gcc", "-shared", "-fPIC", "-O1", "-g0", "-w", "-DNDEBUG", "-fwrapv", "-fopenmp"]
        if base == "histogram":
            cmd[3] = "-O0"
        cmd += inc + [csrc] + [os.path.join(REPO, x) for x in extra] + ["-o", out + ".tmp", "-lgomp", "-lm"]
        subprocess.run(cmd, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.replace(out + ".tmp", out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname not in EXT:
            return None
        so = build(fullname, EXT[fullname])
        loader = importlib.machinery.ExtensionFileLoader(fullname, so)
        return importlib.util.spec_from_file_location(fullname, so, loader=loader)


def install(pid=None):
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


if __name__ == "__main__":
    for n, s in EXT.items():
        print(n, build(n, s))
