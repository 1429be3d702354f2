#!/opt/venv/bin/python
"""mutate.py ID [FUNC...]: which small changes of the anchored code does a check miss?

Every mutant that the module's own tests pass is given to the check of the
property.  Survivors are printed for a human to look at.  Scratch copies only.
  -n N   at most N mutants (random choice)   -j J workers   -s SEED
"""
import argparse
import ast
import concurrent.futures
import copy
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from mutants import TARGETS  # noqa: E402

PY = "/opt/venv/bin/python"


class Sites(ast.NodeTransformer):
    """Enumerates the mutations of a function; applies number `pick`."""

    def __init__(self, pick=None):
        self.pick = pick
        self.n = -1
        self.what = None

    def hit(self, node, what):
        self.n += 1
        if self.n == self.pick:
            self.what = "line %d: %s" % (getattr(node, "lineno", 0), what)
            return True
        return False

    def visit_Compare(self, node):
        self.generic_visit(node)
        alt = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
               ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        for i, op in enumerate(list(node.ops)):
            for a in alt.get(type(op), []):
                if self.hit(node, "%s -> %s" % (type(op).__name__, a.__name__)):
                    node.ops[i] = a()
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        alt = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult, ast.FloorDiv], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv],
               ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}
        for a in alt.get(type(node.op), []):
            if isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                continue
            if self.hit(node, "%s -> %s in %s" % (type(node.op).__name__, a.__name__, ast.unparse(node))):
                node.op = a()
        if self.hit(node, "keep left of %s" % ast.unparse(node)):
            return node.left
        if self.hit(node, "keep right of %s" % ast.unparse(node)):
            return node.right
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            if self.hit(node, "%r -> %r" % (node.value, not node.value)):
                return ast.copy_location(ast.Constant(not node.value), node)
        elif isinstance(node.value, int):
            for d in (1, -1):
                if self.hit(node, "%r -> %r" % (node.value, node.value + d)):
                    return ast.copy_location(ast.Constant(node.value + d), node)
        elif isinstance(node.value, float):
            if self.hit(node, "%r -> %r" % (node.value, node.value * 2 + 1)):
                return ast.copy_location(ast.Constant(node.value * 2 + 1), node)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.hit(node, "and/or swapped in %s" % ast.unparse(node)):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        for i in range(len(node.values)):
            if self.hit(node, "drop operand %d of %s" % (i, ast.unparse(node))):
                vals = node.values[:i] + node.values[i + 1:]
                return vals[0] if len(vals) == 1 else ast.copy_location(ast.BoolOp(node.op, vals), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
            if self.hit(node, "drop %s" % ast.unparse(node)):
                return node.operand
        return node

    def _test(self, node):
        for v in (True, False):
            if self.hit(node, "condition %s always %s" % (ast.unparse(node.test), v)):
                node.test = ast.copy_location(ast.Constant(v), node.test)
                return node
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        return self._test(node)

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return self._test(node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "format":
            return node
        if len(node.args) >= 2:
            for i in range(len(node.args) - 1):
                if self.hit(node, "swap arguments %d,%d of %s" % (i, i + 1, ast.unparse(node))):
                    node.args[i], node.args[i + 1] = node.args[i + 1], node.args[i]
                    return node
        for i in range(len(node.keywords)):
            if self.hit(node, "drop keyword %s of %s" % (node.keywords[i].arg, ast.unparse(node))):
                del node.keywords[i]
                return node
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "astype", "ravel", "squeeze", "sort", "flatten", "reshape"):
            if self.hit(node, "drop .%s() of %s" % (node.func.attr, ast.unparse(node))):
                return node.func.value
        alt = {"floor": "ceil", "ceil": "floor", "min": "max", "max": "min", "maximum": "minimum", "minimum": "maximum", "sum": "mean", "mean": "sum", "any": "all",
               "all": "any", "zeros": "ones", "ones": "zeros", "cos": "sin", "sin": "cos", "argmax": "argmin", "rint": "floor", "round": "floor", "nanmean": "mean",
               "sqrt": "abs", "abs": "asarray", "argsort": "argmax", "sorted": "list", "nansum": "sum"}
        if isinstance(node.func, ast.Attribute) and node.func.attr in alt:
            if self.hit(node, "%s -> %s in %s" % (node.func.attr, alt[node.func.attr], ast.unparse(node))):
                node.func.attr = alt[node.func.attr]
        elif isinstance(node.func, ast.Name) and node.func.id in ("int", "float", "list", "tuple", "abs", "sorted", "round") and len(node.args) == 1:
            if self.hit(node, "drop %s() of %s" % (node.func.id, ast.unparse(node))):
                return node.args[0]
        return node

    def _stmts(self, body):
        out = []
        for s in body:
            dropped = False
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break)) and not (
                    isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                if self.hit(s, "delete %s" % ast.unparse(s)[:90]):
                    dropped = True
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant) and len(body) > 1:
                pass
            r = self.visit(s)
            if dropped:
                r = ast.copy_location(ast.Pass(), s)
            out.append(r)
        return out

    def generic_visit(self, node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self._stmts(b))
                for s in b:
                    pass
        for f, old in list(ast.iter_fields(node)):
            if f in ("body", "orelse", "finalbody") and isinstance(old, list) and old and isinstance(old[0], ast.stmt):
                continue
            if f in ("decorator_list", "returns", "annotation"):
                continue
            if isinstance(old, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in old])
            elif isinstance(old, ast.AST):
                setattr(node, f, self.visit(old))
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, ast.Tuple) and len(node.slice.elts) == 2:
            if self.hit(node, "swap indices of %s" % ast.unparse(node)):
                node.slice.elts.reverse()
        if isinstance(node.slice, ast.Slice):
            for f in ("lower", "upper", "step"):
                if getattr(node.slice, f) is not None and self.hit(node, "drop %s of %s" % (f, ast.unparse(node))):
                    setattr(node.slice, f, None)
        return node


def py_mutants(path, funcs):
    src = open(path).read()
    tree = ast.parse(src)
    found = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            found.setdefault(n.name, n)
    for fn in funcs:
        if fn not in found:
            raise SystemExit("no %s in %s" % (fn, path))
        k = 0
        while True:
            t = copy.deepcopy(tree)
            node = next(n for n in ast.walk(t) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == fn)
            s = Sites(k)
            s.generic_visit(node)
            if s.what is None:
                break
            ast.fix_missing_locations(t)
            try:
                out = ast.unparse(t)
                yield "%s %s" % (fn, s.what), out
            except Exception:
                pass
            k += 1


TEXT = [(r"<=", "<"), (r"(?<![<>-])<(?![<=])", "<="), (r">=", ">"), (r"(?<![->])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"\+\+", "--"),
        (r"\+=", "="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"&&", "||"), (r"\|\|", "&&"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"),
        (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"\[0\]", "[1]"), (r"\[1\]", "[2]"), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bTrue\b", "False")]


def text_mutants(path, ranges):
    src = open(path).read().split("\n")
    for lo, hi in ranges:
        a = next(i for i, x in enumerate(src) if re.search(lo, x))
        b = next((i for i in range(a + 1, len(src)) if re.search(hi, src[i])), len(src))
        for i in range(a, b):
            x = src[i]
            if x.strip().startswith(("*", "/*", "//", "#", "cdef ", "import", "from")) or not x.strip():
                continue
            for pat, new in TEXT:
                for m in re.finditer(pat, x):
                    y = x[:m.start()] + new + x[m.end():]
                    yield "line %d: %s  =>  %s" % (i + 1, x.strip(), y.strip()), "\n".join(src[:i] + [y] + src[i + 1:])
            if path.endswith(".c") and x.strip().endswith(";") and "return" not in x and not re.match(r"\s*(int|double|PyObject|PyArrayObject|unsigned|static|npy_intp|size_t|long)\b", x):
                yield "line %d: delete %s" % (i + 1, x.strip()), "\n".join(src[:i] + [";"] + src[i + 1:])


def env(c):
    return dict(os.environ, PYTHONPATH=c + ":/opt/vp/plugin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="2", VERIF_REPO=c)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("funcs", nargs="*")
    ap.add_argument("-n", type=int, default=0)
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("-s", type=int, default=1)
    a = ap.parse_args()
    mut = []
    for t in TARGETS[a.id]:
        path = os.path.join("/repo", t["file"])
        if "funcs" in t:
            fs = [f for f in t["funcs"] if not a.funcs or f in a.funcs]
            gen = py_mutants(path, fs)
        else:
            if a.funcs:
                continue
            gen = text_mutants(path, t["ranges"])
        mut += [(t, w, s) for w, s in gen]
    if a.n and len(mut) > a.n:
        random.Random(a.s).shuffle(mut)
        mut = mut[:a.n]
    print("%d mutants" % len(mut))
    base = tempfile.mkdtemp(prefix="mut_")
    pool = queue.Queue()
    for i in range(a.j):
        c = "%s/r%d" % (base, i)
        subprocess.run(["cp", "-a", "/repo", c], check=True)
        pool.put(c)
    stat = dict(tests=0, caught=0, survived=0, machinery=0)

    def one(m):
        t, w, s = m
        c = pool.get()
        o = tempfile.mkdtemp(prefix="muto_")
        path = os.path.join(c, t["file"])
        orig = open(path).read()
        try:
            open(path, "w").write(s)
            if t["file"].endswith((".c", ".pyx")):
                code = ("import sys; sys.path.insert(0, %r); import ext, shutil, os\n"
                        "for n, s in ext.EXT.items():\n"
                        "    so = ext.build(n, s); dst = os.path.join(ext.REPO, s['so'])\n"
                        "    if os.path.realpath(so) != os.path.realpath(dst): shutil.copy(so, dst)\n") % (ROOT + "/harness")
                if subprocess.run([PY, "-c", code], env=env(c), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                    return "tests", w, ""
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=60", "--deselect=skbeam/core/tests/test_roi.py::test_auto_find_center_rings"] + t["tests"],
                                   cwd=c, env=env(c), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
                if r.returncode:
                    return "tests", w, ""
            except subprocess.TimeoutExpired:
                return "tests", w, ""
            p = subprocess.run(["bash", ROOT + "/check.sh", a.id, "quick"], env=dict(env(c), VERIF_OUT=o), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            k = {0: "survived", 1: "caught"}.get(p.returncode, "machinery")
            return k, w, p.stdout.decode()[-400:] if k == "machinery" else ""
        finally:
            open(path, "w").write(orig)
            shutil.rmtree(o, ignore_errors=True)
            pool.put(c)

    try:
        with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
            for k, w, out in ex.map(one, mut):
                stat[k] += 1
                if k in ("survived", "machinery"):
                    print("%-10s %s %s" % (k.upper(), w, out))
                    sys.stdout.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(a.id, stat)


main()
