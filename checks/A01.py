"""A01: histogram accumulation."""
import itertools

import numpy as np

from common import close, is_raised, nonvacuous

NAN = 7777777


def small(ck):
    """Every history of up to three calls over a two-bin axis (and one-bin/two-
    bin planes): the whole space, for the conservation argument."""
    cases = []
    d1 = [dict(n=2, low=-1, w=2)]
    single = [dict(op="fill", pts=[[x]], w=[w]) for x in range(-2, 5) for w in (1, 3)] + [dict(op="reset", pts=[], w=[1])]
    for k in (1, 2, 3):
        for seq in itertools.product(single[:: (1 if k < 3 else 2)], repeat=k):
            cases.append(dict(dims=d1, ops=list(seq), kind="exact"))
    d2 = [dict(n=1, low=0, w=2), dict(n=2, low=-2, w=1)]
    for x in range(-1, 4):
        for y in range(-3, 2):
            cases.append(dict(dims=d2, ops=[dict(op="fill", pts=[[x, y]], w=[2])], kind="exact"))
    return cases


def rand_case(rng, ck):
    nd = int(rng.choice([1, 1, 2, 2, 3, 4]))
    kind = ["exact", "awkward"][rng.randint(2)]
    dims = [dict(n=int(rng.randint(1, 5)), low=int(rng.randint(-6, 6)), w=int(rng.randint(1, 3)) * 4) for _ in range(nd)]
    ops = []
    for _ in range(rng.randint(1, 5)):
        if rng.randint(5) == 0 and ops:
            ops.append(dict(op="reset", pts=[], w=[1]))
            continue
        npts = int(rng.choice([0, 1, 2, 5, 9]))
        pts = []
        for _ in range(npts):
            p = []
            for d in dims:
                hi = d["low"] + d["n"] * d["w"]
                x = int(rng.randint(d["low"] - 5, hi + 5))
                if rng.randint(4) == 0:
                    x = [d["low"], hi, hi - 1, d["low"] - 1][rng.randint(4)]
                if kind == "awkward" and d["low"] < x < hi and (x - d["low"]) % d["w"] == 0:
                    x += 1          # no promise about points on interior edges
                p.append(x)
            if rng.randint(8) == 0:
                p[rng.randint(nd)] = NAN
            pts.append(p)
        w = [int(v) for v in rng.randint(-3, 9, npts)] if rng.randint(2) and npts else [int(rng.randint(1, 5))]
        ops.append(dict(op="fill", pts=pts, w=w))
    return dict(dims=dims, ops=ops, kind=kind)


def concretise(case, rng):
    """Numbers for the units of each dimension: exact ones, where every edge is
    a binary fraction, or awkward ones, where the bin width is not."""
    conv = []
    for d in case["dims"]:
        hi = d["low"] + d["n"] * d["w"]
        if case["kind"] == "exact":
            u = [0.25, 0.5, 1.0, 2.0, 2.0**-44][rng.randint(5)]
            off = 0.0
        else:
            u = [0.1, 1 / 3.0, 0.7, 1e-3, 12.3][rng.randint(5)]
            off = [0.0, 0.3, -1.7][rng.randint(3)]
        low, high = d["low"] * u + off, hi * u + off
        hug = case["kind"] == "exact" and u < 1 and rng.randint(3) == 0   # points just below an edge

        def f(x, d=d, u=u, off=off, low=low, high=high, hi=hi, hug=hug, kind=case["kind"]):
            if x == NAN:
                return np.nan
            if x == d["low"]:
                return low
            if x == hi:
                return high
            if x == hi - 1 and kind == "awkward":
                return np.nextafter(high, -np.inf)
            if x == d["low"] - 1 and kind == "awkward":
                return np.nextafter(low, -np.inf)
            if hug and d["low"] < x < hi and (x - d["low"] + 1) % d["w"] == 0:
                return (x + 1 - 2.0**-30) * u
            return x * u + off

        conv.append((low, high, u, f))
    return conv


DT_INT = [np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64]


def present(arr, how):
    """The same numbers in the forms the interface takes."""
    if how == "list":
        return arr.tolist()
    if how == "tuple":
        return tuple(arr.tolist())
    if how == "strided":
        big = np.full(2 * len(arr) + 1, 99, dtype=arr.dtype)
        big[: 2 * len(arr) : 2] = arr
        return big[: 2 * len(arr) : 2]
    if how == "reversed":
        return arr[::-1].copy()[::-1]
    return arr


def run(ck):
    from skbeam.core.accumulators.histogram import Histogram

    rng = ck.np_rng
    cases = small(ck)
    n_small = len(cases)
    cases += [rand_case(rng, ck) for _ in range(ck.size(450, 6000))]
    r = ck.tlc("Hist", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Conserved PerBin InBounds\n"
               "CONSTANTS NaN=%d\nCONSTANT Cases <- CasesDef\n" % NAN,
               data=[dict(dims=c["dims"], ops=c["ops"]) for c in cases], defs="CasesDef == Data", workers=4)
    snaps = {}
    for e in r.out:
        snaps[(e["case"], e["op"])] = e["vals"]
    nonvacuous(len(snaps) == sum(len(c["ops"]) for c in cases), "snapshots missing")
    touched = sum(1 for v in snaps.values() if v)
    nonvacuous(touched > len(snaps) // 5, "histograms stay empty")
    if not ck.thorough:
        keep = set(ck.rng.sample(range(n_small), 700))
        picked = [i for i in range(len(cases)) if i >= n_small or i in keep]
    else:
        picked = range(len(cases))
    ints = mixed = 0
    for ci in picked:
        c = cases[ci]
        nd = len(c["dims"])
        conv = concretise(c, rng)
        hasnan = any(NAN in p for o in c["ops"] for p in o["pts"])
        integral = c["kind"] == "exact" and not hasnan and all(k[2] >= 1 for k in conv)
        wscale = [1, 1, 0.5][rng.randint(3)]
        args = [(d["n"], k[0], k[1]) for d, k in zip(c["dims"], conv)]
        h = ck.real(Histogram, *args)
        if is_raised(h):
            ck.fail("a histogram is created", args=args, error=h)
            continue
        force_nd = rng.randint(3) == 0
        if force_nd:
            h._always_use_fillnd = True
        shape = tuple(d["n"] for d in c["dims"])
        # edges and centers
        wedges = [np.linspace(a[1], a[2], a[0] + 1) for a in args]
        ok = all(close(g, w) for g, w in zip(h.edges, wedges)) and len(h.edges) == nd
        ok = ok and all(close(g, (w[1:] + w[:-1]) / 2) for g, w in zip(h.centers, wedges))
        ck.expect(ok, "edges and centers span low..high", got=[h.edges, h.centers], args=args)
        script = []
        broken = False
        for oi, o in enumerate(c["ops"]):
            if o["op"] == "reset":
                script.append("reset")
                res = ck.real(h.reset)
            else:
                cols = []
                as_int = integral and rng.randint(2)
                if as_int:
                    vals = [[int(k[3](p[j])) for p in o["pts"]] for j, k in enumerate(conv)]
                    lo = min([0] + [v for col in vals for v in col])
                    pool = [np.int64] if (nd > 2 or force_nd) else [t for t in DT_INT if lo >= np.iinfo(t).min]
                    dt = pool[rng.randint(len(pool))]
                    cols = [np.array(v, dtype=dt) for v in vals]
                    ints += 1
                else:
                    f32 = nd <= 2 and not force_nd and c["kind"] == "exact" and rng.randint(4) == 0
                    cols = [np.array([k[3](p[j]) for p in o["pts"]], dtype=float) for j, k in enumerate(conv)]
                    if f32 and all(np.array_equal(col.astype(np.float32), col, equal_nan=True) for col in cols):
                        cols = [col.astype(np.float32) for col in cols]
                if not as_int and (nd > 2 or force_nd) and c["kind"] == "exact" and rng.randint(2):
                    # the N-dimensional path sorts the axes by type
                    for j, k in enumerate(conv):
                        if k[2] >= 1 and not np.isnan(cols[j]).any() and rng.randint(2):
                            cols[j] = cols[j].astype(np.int64)
                            mixed += 1
                how = ["plain", "plain", "list", "tuple", "strided", "reversed"][rng.randint(6)]
                if len(o["pts"]) == 1 and rng.randint(2):
                    cs = [col.tolist()[0] for col in cols]
                else:
                    cs = [present(col, how) for col in cols]
                w = np.array(o["w"]) * wscale
                if wscale == 1:
                    w = w.astype([np.int64, np.int32, np.float32, float, np.int16][rng.randint(5)])
                if len(o["w"]) == 1:
                    wt = w.tolist()[0] if rng.randint(2) else w
                else:
                    wt = present(w, ["plain", "list", "strided", "tuple"][rng.randint(4)])
                script.append(["fill", cs, wt])
                keep_in = [np.array(x, copy=True) for x in cs]
                if wscale == 1 and o["w"] == [1] and rng.randint(2):
                    res = ck.real(h.fill, *cs)
                else:
                    res = ck.real(h.fill, *cs, weights=wt)
                if not is_raised(res):
                    ck.expect(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep_in, map(np.asarray, cs))),
                              "fill leaves its arguments alone", args=args, script=script)
            case = dict(args=args, script=script, fillnd=force_nd)
            if is_raised(res):
                ck.fail("a call is served", error=res, **case)
                broken = True
                break
            want = np.zeros(shape)
            for b, v in snaps[(ci + 1, oi + 1)]:
                want[tuple(b)] = v * wscale
            if not ck.expect(close(h.values, want), "each bin holds the weight of the points between its edges",
                             got=np.array(h.values), want=want, **case):
                broken = True
                break
        if not broken:
            ck.traced()
            if ci >= n_small:
                ck.sample(args=args, ops=c["ops"][:2], values=np.array(h.values))
    nonvacuous(mixed > 20, "mixed coordinate types not exercised")
    nonvacuous(ints > 20, "integer coordinates not exercised")
    # larger than the cases above: many bins, many points, weights of full precision
    for t in range(ck.size(12, 60)):
        shape = [(300,), (100003,), (257, 301), (40, 41, 43), (9, 10, 11, 70), (3, 200, 300)][t % 6]
        npts = [10, 1500, 5000, 70000][t % 4]
        idx = [rng.randint(0, n, npts) for n in shape]
        h = ck.real(lambda: Histogram(*[(n, 0, n) for n in shape]))
        want = np.zeros(shape)
        err = h if is_raised(h) else None
        for rep in range(2 if err is None else 0):
            w = rng.rand(npts) if rng.randint(3) else np.array([rng.rand()])
            if rep == 1 and t % 12 < 6:
                w[rng.randint(len(w), size=3)] = [np.nan, np.inf, -3.25]
            np.add.at(want, tuple(idx), w if len(w) > 1 else w[0])
            got = ck.real(h.fill, *[(i + 0.5) if t % 3 else i.astype(np.int64) for i in idx], weights=w if len(w) > 1 else float(w[0]))
            err = err or (got if is_raised(got) else None)
        ck.expect(err is None and close(h.values, want, rtol=1e-10), "each bin holds the weight of the points between its edges (large)",
                  shape=shape, npts=npts, error=err)
        ck.traced()
    # calls that make no sense are refused and leave the contents alone
    h = Histogram((2, 0, 2), (2, 0, 2))
    h.fill(np.array([0.5]), np.array([1.5]))
    before = np.array(h.values)
    for bad in (lambda: h.fill(np.array([0.5])), lambda: h.fill(np.array([0.5]), np.array([0.5, 1.5])),
                lambda: h.fill(np.array([0.5, 1.5, 0.5]), np.array([0.5, 1.5, 0.5]), weights=np.array([1, 2]))):
        got = ck.real(bad)
        ck.expect(is_raised(got, "ValueError") and close(h.values, before), "a malformed fill is refused", got=got)
    h = ck.real(lambda: Histogram(*[(2, 0, 2)] * 10))
    got = h if is_raised(h) else ck.real(lambda: h.fill(*[np.array([0.5, 1.5 if k % 2 else 0.5]) for k in range(10)]))
    ok = not is_raised(got) and h.values.sum() == 2 and h.values[(0,) * 10] == 1 and h.values[(0, 1) * 5] == 1
    ck.expect(ok, "as many dimensions as are supported", got=got)
    got = ck.real(lambda: Histogram(*[(1, 0, 1)] * 11))
    ck.expect(is_raised(got, "ValueError"), "more dimensions than supported are refused", got=got)
