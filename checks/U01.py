"""U01: metadata containers addressed by dotted paths."""
import copy

import numpy as np

from common import is_raised, nonvacuous

POOLS = [["a", "b", "c"], ["name", "names", "nam"], ["x1", "1", "x"], ["pixel_size", "é", " "], ["_dict", "keys", "_split"]]


class Opaque(object):
    pass


def rc_value(rng, v):
    k = rng.randint(11)
    return [v, float(v), "test%d" % v, [v, "m"], (v,), {v}, np.arange(v + 1), Opaque(), bool(v - 1), {"k": v}, {}][k]


def md_value_of(rng, v, md_value):
    """(what is assigned, the value and the units it stands for)"""
    arr = np.arange(3) + v
    o = Opaque()
    return [
        (v, v, None), (v + 0.5, v + 0.5, None), ("text %d" % v, "text %d" % v, "text"),
        ((v, "m"), v, "m"), ([v, "mm"], v, "mm"), ((arr, "s"), arr, "s"), ((v, None), v, None),
        (md_value(v, "kg"), v, "kg"), (md_value(v, ("m", 2)), v, ("m", 2)), (md_value("s%d" % v, None), "s%d" % v, None),
        ([v, v + 1], [v, v + 1], None), ((v, v, "m"), (v, v, "m"), None), ((v, "m", 3), (v, "m", 3), None),
        (arr, arr, None), ([v], [v], None), ((), (), None), ({"k": v}, {"k": v}, None), (None, None, None), (o, o, None),
        ([v, None], v, None), ([None, "m"], None, "m"), ((None, None), None, None), (["s%d" % v, "m"], "s%d" % v, "m"),
        (("a", "b"), "a", "b"), ([[v, v], "m"], [v, v], "m"), ((v, 0), (v, 0), None), ([v, ""], v, ""), ((v, v, None), (v, v, None), None),
        ([v, None, 1], [v, None, 1], None), ("", "", "text"), (u"\u00e5", u"\u00e5", "text"), (0, 0, None), (False, False, None),
        (md_value(v, ""), v, ""), (md_value((), 0), (), 0), (["", ""], "", ""),
    ][rng.randint(36)]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or (type(a) is type(b) and not isinstance(a, Opaque) and a == b)


def run(ck):
    from skbeam.core import utils

    rng = ck.np_rng
    md_value = utils.md_value
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS WellFormed LeafAlone\nPROPERTIES Frame\nVIEW View\n"
           "CONSTANTS Names = {%s} Depth = %d Vals = {%s} Kind = 1 MaxLen = %d\n")
    sets = [("1, 2", 2, "1, 2", 9), ("1, 2", 3, "1", ck.size(3, 5)), ("1, 2, 3", 2, "1", ck.size(3, 5))]
    out = []
    for names, depth, vals, ml in sets:
        r = ck.tlc("Tree", cfg % (names, depth, vals, ml), workers=1)
        out.append(r.out)
    kinds = {}
    for ei, tr in enumerate(out):
        pick = tr
        cap = ck.size(1300, 60000)
        if len(pick) > cap:
            pick = ck.rng.sample(tr, cap)
            ck.exhaustive = False
        for e in pick:
            for kind in ("RC", "MD"):
                step(ck, utils, kind, e, rng, kinds)
    for need in [(k, o, a) for k in ("RC", "MD") for o, a in (("set", "ok"), ("set", "KeyError"), ("del", "ok"), ("del", "KeyError"),
                                                              ("get", "leaf"), ("get", "branch"), ("get", "missing"), ("get", "KeyError"))]:
        nonvacuous(kinds.get(need, 0) > 5, "transition %s not replayed" % (need,))
    long_histories(ck, utils, rng)
    verbose(ck, utils, rng)


def build(utils, kind):
    return utils.RCParamDict() if kind == "RC" else utils.MD_dict()


def present(kind, d, want, names, case, ck, md_value):
    """Every observable of the container agrees with the leaves it should have."""
    leaves = {".".join(names[x] for x in p): v for p, v in want}

    def look():
        return sorted(iter(d)), len(d), {k: d[k] for k in list(d)}, list(d.items()), list(d.values()), [k in d for k in leaves]

    got = ck.real(look)
    if is_raised(got):
        ck.fail("the container can be listed", kind=kind, error=got, **case)
        return False
    ks, n, vals, items, values, inn = got
    ok = ks == sorted(leaves) and n == len(leaves) and all(inn)
    ok = ok and sorted(k for k, _ in items) == ks and len(values) == n
    if ok:
        for k, w in leaves.items():
            if kind == "RC":
                ok = ok and same(vals[k], w)
            else:
                ok = ok and isinstance(vals[k], md_value) and same(vals[k].value, w[1]) and vals[k].units == w[2]
    return ck.expect(ok, "exactly the assigned leaves are there, each with its last value", kind=kind, got=vals, want=leaves, **case)


def step(ck, utils, kind, e, rng, kinds):
    names = list(POOLS[rng.randint(len(POOLS))])
    ck.rng.shuffle(names)
    names = dict(zip((1, 2, 3), names))
    md_value = utils.md_value
    d = build(utils, kind)
    vals = {}
    last = {}

    def give(p, v):
        """the abstract value v at path p as something concrete; remembered"""
        if kind == "RC":
            x = rc_value(rng, v)
            return x, x
        x = md_value_of(rng, v, md_value)
        return x[0], x

    def name(p):
        return ".".join(names[x] for x in p)

    def do(op, p, v):
        key = name(p)
        if op == "set":
            a, w = give(p, v)
            last[tuple(p)] = w

            def f():
                d[key] = a
            return ck.real(f)
        if op == "del":
            def f():
                del d[key]
            return ck.real(f)
        return ck.real(lambda: d[key])

    script = []
    for op, p, v in e["hist"]:
        script.append([op, name(p), repr(v)])
        r = do(op, p, v)
        if is_raised(r):
            ck.fail("an assignment or removal is served", kind=kind, script=script, error=r)
            return
    keep = dict(last)
    script.append([e["op"], name(e["path"]), repr(e["val"])])
    case = dict(script=script)
    r = do(e["op"], e["path"], e["val"])
    ans = e["ans"]
    kinds[(kind, e["op"], ans)] = kinds.get((kind, e["op"], ans), 0) + 1
    p = tuple(e["path"])
    if e["op"] == "set" and ans == "KeyError":
        last = keep
        ck.expect(is_raised(r, "KeyError"), "a leaf cannot be used as a branch", kind=kind, got=r, **case)
    elif e["op"] == "set":
        ck.expect(not is_raised(r), "an assignment is served", kind=kind, got=r, **case)
    elif e["op"] == "del":
        if ans == "ok":
            ck.expect(not is_raised(r), "a removal is served", kind=kind, got=r, **case)
        else:
            ck.expect(is_raised(r, "KeyError"), "what is not there cannot be removed", kind=kind, got=r, **case)
    elif ans == "leaf":
        w = keep[p]
        ok = same(r, w) if kind == "RC" else isinstance(r, md_value) and same(r.value, w[1]) and r.units == w[2]
        ck.expect(ok, "a read gives the last assignment", kind=kind, got=r, want=w, **case)
    elif ans == "branch":
        ck.expect(isinstance(r, type(d)), "a read of a branch gives the branch", kind=kind, got=r, **case)
        inn = ck.real(lambda: name(p) in d)
        ck.expect(inn is True, "what can be read is in the container", kind=kind, got=inn, **case)
    elif ans == "missing":
        ok = is_raised(r, "KeyError") if kind == "RC" else r is None
        ck.expect(ok, "a read of what was never assigned finds nothing", kind=kind, got=r, **case)
        inn = ck.real(lambda: name(p) in d)
        ck.expect(inn is False, "what was never assigned is not in the container", kind=kind, got=inn, **case)
    else:
        ck.expect(is_raised(r, "KeyError"), "a read below a leaf finds nothing", kind=kind, got=r, **case)
        inn = ck.real(lambda: name(p) in d)
        ck.expect(inn is False, "what was never assigned is not in the container", kind=kind, got=inn, **case)
    want = [(q, (last if e["op"] == "set" and ans == "ok" else keep)[tuple(q)]) for q, v in e["leaves"]]
    if present(kind, d, want, names, case, ck, md_value):
        ck.traced()
        if kind == "RC":
            shown(ck, d, want, [list(b) for b in e["branches"]], names, case)
    if len(script) > 2:
        ck.sample(kind=kind, script=script, leaves=[[name(q), repr(v)[:40]] for q, v in want])


def shown(ck, d, want, branches, names, case):
    """repr: the leaves of a level in order, then its branches, indented."""
    leaves = {tuple(p): v for p, v in want}
    br = [tuple(b) for b in branches]

    def walk(pre):
        n = len(pre)
        out = []
        here = sorted((names[p[-1]], p) for p in leaves if len(p) == n + 1 and p[:n] == pre)
        subs = sorted((names[b[-1]], b) for b in br if len(b) == n + 1 and b[:n] == pre)
        for nm, p in here:
            out.append("    " * n + "%s: %s" % (nm, "{}".format(leaves[p])))
        for nm, b in subs:
            out.append("    " * n + nm + ":")
            out += walk(b)
        return out

    got = ck.real(repr, d)
    ck.expect(got == "\n".join(walk(())), "the printed tree lists every leaf under its branch", got=got, **case)


def long_histories(ck, utils, rng):
    """Histories too long to enumerate, against the same rules (a flat book of
    leaves and branches kept here)."""
    for _ in range(ck.size(120, 1500)):
        kind = ["RC", "MD"][rng.randint(2)]
        d = build(utils, kind)
        book, branches, script = {}, set(), []
        pool = POOLS[rng.randint(len(POOLS))]
        for _ in range(rng.randint(5, 40)):
            p = tuple(pool[rng.randint(len(pool))] for _ in range(rng.randint(1, 5)))
            key = ".".join(p)
            through = any(p[:k] in book for k in range(1, len(p)))
            op = ["set", "set", "del", "get"][rng.randint(4)]
            v = int(rng.randint(1, 99))
            script.append([op, key, v])
            if op == "set":
                r = ck.real(d.__setitem__, key, v)
                if not through:
                    for q in [q for q in book if q[:len(p)] == p]:
                        del book[q]
                    branches = {b for b in branches if b[:len(p)] != p}
                    branches |= {p[:k] for k in range(1, len(p))}
                    book[p] = v
                ok = is_raised(r, "KeyError") if through else not is_raised(r)
            elif op == "del":
                r = ck.real(d.__delitem__, key)
                there = p in book or p in branches
                if there:
                    for q in [q for q in book if q[:len(p)] == p]:
                        del book[q]
                    branches = {b for b in branches if b[:len(p)] != p}
                ok = not is_raised(r) if there else is_raised(r, "KeyError")
            else:
                r = ck.real(d.__getitem__, key)
                if p in book:
                    ok = (r if kind == "RC" else getattr(r, "value", None)) == v or (
                        (r if kind == "RC" else getattr(r, "value", None)) == book[p])
                elif p in branches:
                    ok = isinstance(r, type(d))
                elif through or kind == "RC":
                    ok = is_raised(r, "KeyError")
                else:
                    ok = r is None
            if not ck.expect(ok, "long history: the answer of each step", kind=kind, script=script, got=r):
                return
            now = ck.real(lambda: sorted((k, d[k] if kind == "RC" else d[k].value) for k in d))
            if not ck.expect(now == sorted((".".join(q), x) for q, x in book.items()), "long history: the leaves after each step",
                             kind=kind, script=script, got=now):
                return
        ck.traced()


def verbose(ck, utils, rng):
    """verbosedict: a dict whose KeyError names what there is."""
    for n in list(range(0, 32)) + [100]:
        keys = ["k%d" % i for i in range(n)]
        d = utils.verbosedict((k, i) for i, k in enumerate(keys))
        ok = all(ck.real(lambda k=k: d[k]) == i for i, k in enumerate(keys))
        ck.expect(ok and len(d) == n, "verbosedict holds what was put in", n=n)
        r = ck.real(lambda: d["nope"])
        ck.expect(is_raised(r, "KeyError"), "verbosedict refuses an unknown key", n=n, got=r)
        if is_raised(r):
            ok = "nope" in r.text
            if n < 25:
                ok = ok and all(repr(k) in r.text for k in keys[:20])
            else:
                ok = ok and str(n) in r.text
            ck.expect(ok, "the error names the key and what there is", n=n, got=r.text)
        ck.expect("nope" not in d and d.get("nope", 7) == 7 and len(d) == n, "asking adds nothing", n=n)
    ck.traced(33)
    _ = copy
