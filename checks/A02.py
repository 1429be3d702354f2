"""A02: binned statistics partition the samples."""
import itertools

import numpy as np

from common import close, is_raised, nonvacuous

STATS = ["mean", "median", "count", "sum", "std"]


def biggest(v):
    return float(np.max(v)) if len(v) else -5.0


def failing_when_empty(v):
    return float(v[0]) * 0 + len(v) * 2.0


def stat_of(stat, vals):
    v = np.asarray(vals, dtype=float)
    if stat == "count":
        return len(v)
    if stat == "sum":
        return v.sum() if len(v) else 0.0
    if stat == "mean":
        return v.mean() if len(v) else np.nan
    if stat == "median":
        return np.median(v) if len(v) else np.nan
    if stat == "std":
        return v.std() if len(v) else 0.0
    if stat is biggest:
        return biggest(v)
    if stat is failing_when_empty:
        return failing_when_empty(v) if len(v) else np.nan
    raise AssertionError(stat)


def gen(rng, ck):
    cases = []
    # every placement of two points over a three-bin axis, masked or not
    for a, b in itertools.product(range(-1, 8), repeat=2):
        for m in ([], [1, 0], [0, 1]):
            cases.append(dict(kind="plain", edges=[[0, 2, 3, 6]], pts=[[a], [b]], mask=m, shape=[0, 0], org=[0, 0]))
    for _ in range(ck.size(200, 3000)):
        D = int(rng.choice([1, 1, 2, 2, 3]))
        uniform = rng.randint(2)
        edges = []
        for _d in range(D):
            n = int(rng.randint(1, 6))
            if uniform:
                w = int(rng.choice([1, 2, 4]))
                lo = int(rng.randint(-5, 5))
                edges.append([lo + w * k for k in range(n + 1)])
            else:
                edges.append([int(x) for x in np.cumsum(rng.randint(1, 5, n + 1)) - 5])
            if not uniform and n > 1 and rng.randint(6) == 0:
                # a very wide bin before or among narrow ones (the end counts as reached
                # within a millionth of the narrowest bin)
                at = int(rng.randint(0, len(edges[-1]) - 1))
                edges[-1] = [x + (30000000 if k > at else 0) for k, x in enumerate(edges[-1])]
        if D == 2 and rng.randint(4) == 0:
            edges[1] = list(edges[0])
        N = int(rng.choice([1, 3, 8, 14]))
        pts = [[int(rng.choice([rng.randint(e[0] - 2, e[-1] + 3), e[-1], e[0], e[rng.randint(len(e))], e[-1] + rng.randint(-2, 4)])) for e in edges]
               for _ in range(N)]
        mask = [int(x) for x in rng.randint(0, 2, N)] if rng.randint(2) else []
        cases.append(dict(kind="plain", edges=edges, pts=pts, mask=mask, shape=[0, 0], org=[0, 0], uniform=bool(uniform)))
    for _ in range(ck.size(140, 800)):
        sh = [int(rng.randint(1, 6)), int(rng.randint(1, 6))]
        org = [sh[0] - 1, sh[1] - 1] if rng.randint(2) else [int(rng.randint(0, 2 * sh[0])), int(rng.randint(0, 2 * sh[1]))]
        re = sorted(set(int(x) for x in rng.randint(0, 12, rng.randint(2, 5))))
        if len(re) < 2:
            re = [0, 5]
        kind = ["radial", "rphi"][rng.randint(2)]
        edges = [[x * x for x in re]]
        if kind == "rphi":
            edges.append([[0, 2, 4, 6, 8], [0, 4, 8], [2, 4, 6], [0, 8]][rng.randint(4)])
        mask = [int(x) for x in rng.randint(0, 2, sh[0] * sh[1])] if rng.randint(2) else []
        cases.append(dict(kind=kind, edges=edges, pts=[], mask=mask, shape=sh, org=org, re=re))
    return cases


def run(ck):
    from skbeam.core.accumulators.binned_statistic import (
        BinnedStatistic1D, BinnedStatistic2D, BinnedStatisticDD, RadialBinnedStatistic, RPhiBinnedStatistic)

    rng = ck.np_rng
    cases = gen(rng, ck)
    r = ck.tlc("BinStat", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Partition\nCONSTANT Cases <- CasesDef\n",
               data=[{k: c[k] for k in ("kind", "edges", "pts", "mask", "shape", "org")} for c in cases],
               defs="CasesDef == Data", workers=4)
    res = {e["case"]: e for e in r.out}
    nonvacuous(len(res) == len(cases), "cases missing")
    lives = ck.tlc("BinCalls", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Answered Report\nPROPERTY Kept\n"
                   "CONSTANTS Stats = 3 MaxLen = %d\n" % ck.size(4, 5), workers=4).out
    nonvacuous(len(lives) == 8 ** ck.size(4, 5), "histories missing")
    lives = sorted(lives, key=lambda h: repr(h["hist"]))
    seen = set()
    for ci, c in enumerate(cases, 1):
        e = res[ci]
        D = len(c["edges"])
        shape = tuple(len(x) - 1 for x in c["edges"])
        N = len(e["where"])
        mask = np.array(c["mask"]) if c["mask"] else None
        bool_mask = rng.randint(3) == 0
        if mask is not None and bool_mask:
            mask = mask.astype(bool)
        elif mask is not None and rng.randint(4) == 0:
            # any number but zero is set
            mask = mask * [2, 255, -1, 0.25][rng.randint(4)]
        first = (STATS + [biggest, failing_when_empty])[rng.randint(7)]
        how = None
        if c["kind"] == "plain":
            pts = np.array(c["pts"]).reshape(N, D)
            as_int = rng.randint(3) == 0
            scale = [1 if as_int else [1.0, 0.5, 0.25, 2.0**-36, 2.0**25, 0.1][rng.randint(6)]] * D
            if not as_int and rng.randint(2):
                # dimensions of very different extent
                scale = [[1.0, 2.0**-36, 2.0**25][rng.randint(3)] for d in range(D)]
            cols = [pts[:, d] * scale[d] for d in range(D)]
            cols = [x.astype(np.int64 if as_int else float) for x in cols]
            edges = [np.array(x) * s for x, s in zip(c["edges"], scale)]
            if not as_int:
                # positions a hair below the last edge are still below it
                for d in range(D):
                    if rng.randint(2):
                        hit = pts[:, d] == c["edges"][d][-1] - 1
                        near = c["edges"][d][-1] - 1 >= c["edges"][d][-2]
                        if near:
                            cols[d][hit] = np.nextafter(edges[d][-1], -np.inf) if rng.randint(2) else edges[d][-1] - 1e-8 * scale[d]
                    if rng.randint(2):
                        # and those a little above it are not in the last bin
                        hit = pts[:, d] > c["edges"][d][-1]
                        cols[d][hit] = edges[d][-1] + 3e-5 * np.diff(edges[d]).min()
            if c.get("uniform") and 0.1 not in scale and rng.randint(2):
                bins = [len(x) - 1 for x in edges]
                rngs = [(x[0], x[-1]) for x in edges]
            else:
                bins, rngs = [x if rng.randint(2) else list(x) for x in edges], None
            m = mask
            if mask is not None and rng.randint(3) == 0:
                m = mask.tolist()
            kw = dict(statistic=first)
            if m is not None:
                kw["mask"] = m
            if D == 1 and rng.randint(2):
                how = "1D"
                x = cols[0] if rng.randint(2) else cols[0].tolist()
                if rngs is not None:
                    kw["range"] = rngs[0]
                make = lambda: BinnedStatistic1D(x, bins=bins[0], **kw)  # noqa: E731
                inputs = [cols[0]]
            elif D == 2 and rng.randint(2):
                how = "2D"
                if rngs is not None:
                    kw["range"] = rngs
                both = bins
                if c["edges"][0] == c["edges"][1] and scale[0] == scale[1] and len(c["edges"][0]) not in (1, 2):
                    # one specification for the two dimensions
                    both = bins[0]
                    seen.add("shared")
                make = lambda: BinnedStatistic2D(cols[0], cols[1], bins=both, **kw)  # noqa: E731
                inputs = cols
            else:
                how = "DD"
                if rngs is not None:
                    kw["range"] = rngs
                nd = np.array(cols).T
                sample = [nd, cols, np.ascontiguousarray(nd)][rng.randint(3)]
                if D == 1 and sample is cols:
                    sample = nd
                make = lambda: BinnedStatisticDD(sample, bins=bins, **kw)  # noqa: E731
                inputs = [np.asarray(sample) if not isinstance(sample, list) else None] + cols
                inputs = [i for i in inputs if i is not None]
            vshape = (N,)
        else:
            sh = tuple(c["shape"])
            vshape = sh
            kw = dict(statistic=first)
            if mask is not None:
                kw["mask"] = ck.layout(mask.reshape(sh))
            if c["org"] != [sh[0] - 1, sh[1] - 1] or rng.randint(2):
                kw["origin"] = (c["org"][0] / 2.0, c["org"][1] / 2.0)
            redges = np.array(c["re"]) / 2.0
            edges = [redges]
            f = 1.0
            if rng.randint(2):
                o = (c["org"][0] / 2.0, c["org"][1] / 2.0)
                rr, cc = np.mgrid[: sh[0], : sh[1]]
                f = 4.0
                kw["r_map"] = np.array(np.sqrt((rr - o[0]) ** 2 + (cc - o[1]) ** 2) * f, order="CF"[rng.randint(2)])
            edges = [redges * f]
            if c["kind"] == "radial":
                how = "radial"
                make = lambda: RadialBinnedStatistic(sh, bins=edges[0], **kw)  # noqa: E731
            else:
                how = "rphi"
                edges = edges + [np.array(c["edges"][1]) * np.pi / 4 - np.pi]
                make = lambda: RPhiBinnedStatistic(sh, bins=edges, **kw)  # noqa: E731
            inputs = []
        seen.add(how)
        before = [np.array(i, copy=True) for i in inputs]
        mk0 = None if mask is None else mask.copy()
        case = dict(how=how, case=c, first=getattr(first, "__name__", first))
        bs = ck.real(make)
        if is_raised(bs):
            ck.fail("the statistic object is created", error=bs, **case)
            continue
        ok = all(np.array_equal(a, b) for a, b in zip(before, inputs)) and (mask is None or np.array_equal(mk0, mask))
        ck.expect(ok, "samples and mask are left alone", **case)
        be = bs.bin_edges if how in ("2D", "DD", "rphi") else [bs.bin_edges]
        bc = bs.bin_centers if how in ("2D", "DD", "rphi") else [bs.bin_centers]
        ck.expect(len(be) == D and all(close(a, b) for a, b in zip(be, edges)) and
                  all(close(a, (b[1:] + b[:-1]) / 2) for a, b in zip(bc, edges)), "bin edges and centers", got=[be, bc],
                  want=edges, **case)
        bm = ck.real(lambda: np.array(bs.binmap))
        # a masked point is an outlier in at least one dimension
        wm = np.array(e["where"]).T.reshape(D, N)
        if is_raised(bm) or bm.shape != wm.shape:
            ck.fail("binmap gives the bin of every point", got=bm, want=wm, **case)
        else:
            live = np.ones(N, bool) if mask is None else (np.array(c["mask"]) != 0)
            inside = np.array([all(1 <= b <= n for b, n in zip(col, shape)) for col in bm.T], bool)
            ck.expect(np.array_equal(bm[:, live], wm[:, live]) and not inside[~live].any(),
                      "binmap gives the bin of every point", got=bm, want=wm, mask=c["mask"], **case)
        # a history of calls on the same object
        life = lives[rng.randint(len(lives))]
        others = [s for s in STATS + [biggest, failing_when_empty] if s is not first]
        names = [None, first] + [others[k] for k in rng.permutation(6)[:2]]
        kept = []
        case["history"] = life["hist"]
        for call, ((op, s), eff) in enumerate(zip(life["hist"], life["answers"])):
            if op in ("set", "bad"):
                got = ck.real(setattr, bs, "statistic", names[s] if op == "set" else ["modus", None, 3][rng.randint(3)])
                ck.expect(is_raised(got, "ValueError") if op == "bad" else not is_raised(got), "a statistic is set, a senseless one refused", got=got, call=call, **case)
                continue
            stat = None if op == "call" else names[s]
            vals = rng.randint(-9, 20, vshape).astype([float, np.int64][rng.randint(2)])
            pick = rng.randint(8)
            if pick < 2:
                vals = np.full(vshape, 0.1)
            elif pick == 2:
                # up to the limits of a narrow type
                t = [np.uint8, np.int8, np.int16, np.uint16][rng.randint(4)]
                vals = rng.randint(np.iinfo(t).min, np.iinfo(t).max + 1, vshape).astype(t)
            elif pick == 3:
                # a small spread far from zero
                vals = rng.randint(0, 9, vshape) + 1e8
            elif pick == 4:
                vals = rng.uniform(-9, 9, vshape)
            v0 = vals.copy()
            eff = names[eff]
            arg = ck.layout(vals) if how in ("radial", "rphi") or rng.randint(6) else vals.tolist()
            got = ck.real(bs, arg) if stat is None else ck.real(bs, arg, statistic=stat)
            want = np.empty(shape)
            cells = {tuple(w): ids for w, ids in e["cells"]}
            for idx in np.ndindex(*shape):
                ids = cells.get(tuple(i + 1 for i in idx), [])
                want[idx] = stat_of(eff, [vals.reshape(-1)[i - 1] for i in ids])
            ck.expect(not is_raised(got) and close(got, want, atol=1e-6 if pick == 3 else 1e-10),
                      "every bin holds the statistic of exactly its points", call=call,
                      statistic=getattr(eff, "__name__", eff), values=vals, got=got, want=want, **case)
            ck.expect(np.array_equal(v0, vals), "values are left alone", **case)
            kept.append((got, want))
        if not ck.violations:
            ck.expect(all(close(g, w, atol=1e-6) for g, w in kept), "results handed out are not changed by later calls", got=kept, **case)
        if how in ("radial", "rphi"):
            got = ck.real(bs, np.ones(tuple(n + 1 for n in vshape)))
            ck.expect(is_raised(got, "ValueError"), "values of another shape are refused", got=got, **case)
        ck.traced()
        ck.sample(how=how, edges=c["edges"], cells=e["cells"])
    nonvacuous({"1D", "2D", "DD", "radial", "rphi", "shared"} <= seen, "not every class exercised")
    # more bins and more points than the cases above
    for t in range(ck.size(6, 24)):
        shape = [(70001,), (300, 290), (41, 42, 43)][t % 3]
        npts = 4000
        idx = [rng.randint(-1, n + 1, npts) for n in shape]
        vals = rng.rand(npts)
        edges = [np.arange(n + 1.0) for n in shape]
        cls = [BinnedStatistic1D, BinnedStatistic2D, None][t % 3]
        cols = [i + 0.5 for i in idx]
        bs = ck.real(lambda: BinnedStatisticDD(cols, bins=edges) if cls is None else cls(cols[0], bins=edges[0]) if len(cols) == 1 else cls(*cols, bins=edges))
        ins = np.all([(i >= 0) & (i < n) for i, n in zip(idx, shape)], axis=0)
        sel = tuple(i[ins] for i in idx)
        n, s = np.zeros(shape), np.zeros(shape)
        np.add.at(n, sel, 1)
        np.add.at(s, sel, vals[ins])
        flat = np.ravel_multi_index(sel, shape)
        order = np.lexsort((vals[ins], flat))
        med = np.full(shape, np.nan).reshape(-1)
        for f, g in itertools.groupby(order, key=lambda k: flat[k]):
            med[f] = np.median(vals[ins][list(g)])
        with np.errstate(all="ignore"):
            wants = dict(count=n, sum=s, mean=s / n, median=med.reshape(shape))
        for stat in ("count", "median", "mean", "sum"):
            got = bs if is_raised(bs) else ck.real(bs, vals, statistic=stat)
            ck.expect(not is_raised(got) and close(got, wants[stat]), "every bin holds the statistic of exactly its points (many bins)",
                      shape=shape, statistic=stat, error=got if is_raised(got) else None)
        ck.traced()
    # more points in a bin than a narrow count can hold
    x = np.repeat([0.5, 1.5, 2.5], [70000, 140001, 3])
    b = ck.real(BinnedStatistic1D, x, "count", np.arange(4.0))
    for stat, want in (("count", [70000, 140001, 3]), ("sum", [140000, 280002, 6]), ("mean", [2, 2, 2]), ("median", [2, 2, 2]), ("std", [0, 0, 0])):
        got = b if is_raised(b) else ck.real(b, np.full(len(x), 2.0), statistic=stat)
        ck.expect(not is_raised(got) and close(got, want), "every bin holds the statistic of exactly its points (many points)", statistic=stat, got=got, want=want)
    # a range of numbers without a short binary form: its ends are in, what is just outside is not
    for lo, hi in ((0.1, 0.7), (-0.3, 1 / 3.0), (1e-3 / 7, 0.9), (10.1, 10.7)):
        x = np.array([lo, np.nextafter(lo, -np.inf), np.nextafter(lo, np.inf), hi, np.nextafter(hi, -np.inf), hi + 1e-4 * (hi - lo), (lo + hi) / 2])
        for make in (lambda: BinnedStatistic1D(x, "count", 3, range=(lo, hi)), lambda: BinnedStatistic1D(x, "count", 3, range=[(lo, hi)]),
                     lambda: BinnedStatisticDD([x], "count", 3, range=[(lo, hi)])):
            b = ck.real(make)
            got = b if is_raised(b) else ck.real(b, x)
            ck.expect(not is_raised(got) and close(got, [2, 1, 2]), "the ends of the range are its own", range=(lo, hi), got=got, want=[2, 1, 2])
    # default range: the extent of the samples
    for x in (np.array([1.0, 2.0, 5.0, 3.0]), np.array([4, 8, 6, 5]), np.array([0.1, 0.7, 1.1]), np.array([3.3, -7.7, 1 / 3.0])):
        b = ck.real(BinnedStatistic1D, x, "count", 4)
        ck.expect(not is_raised(b) and close(b.bin_edges, np.linspace(x.min(), x.max(), 5)) and b(x).sum() == len(x),
                  "without a range the bins span the samples", x=x)
    # all samples in one place: bins of a finite width around it
    for v in (0.0, 7.25, -1e3):
        b = ck.real(BinnedStatistic1D, np.full(5, v), "count", 4)
        ck.expect(not is_raised(b) and close(b.bin_edges, np.linspace(v - 0.5, v + 0.5, 5)) and list(b(np.ones(5))) == [0, 0, 5, 0],
                  "samples in one place are in one bin", at=v, got=None if is_raised(b) else b.bin_edges)
    # ten bins unless asked otherwise
    xs = np.array([1.0, 5.0, 3.0, 11.0])
    img = np.arange(30.0).reshape(5, 6)
    for name, make, nd in (("1D", lambda: BinnedStatistic1D(xs), 1), ("2D", lambda: BinnedStatistic2D(xs, xs), 2), ("DD", lambda: BinnedStatisticDD([xs, xs, xs]), 3),
                           ("radial", lambda: RadialBinnedStatistic((5, 6)), 1), ("rphi", lambda: RPhiBinnedStatistic((5, 6)), 2)):
        b = ck.real(make)
        got = None if is_raised(b) else ck.real(b, img if name in ("radial", "rphi") else xs)
        n = None if is_raised(b) else ck.real(b, img if name in ("radial", "rphi") else xs, statistic="count")
        ok = np.shape(got) == (10,) * nd and np.shape(n) == np.shape(got) and np.sum(n) == (30 if name in ("radial", "rphi") else 4)
        ck.expect(ok, "ten bins over the samples by default, nothing lost", how=name, got=got, count=n)
        for sh in ((6, 5), (30,), (5, 7)):
            if name in ("radial", "rphi"):
                cls = RadialBinnedStatistic if name == "radial" else RPhiBinnedStatistic
                bad = ck.real(cls, (5, 6), mask=np.ones(sh, int))
                ck.expect(is_raised(bad, "ValueError"), "a mask of another shape is refused", how=name, shape=sh, got=bad)
    got = ck.real(BinnedStatistic1D, np.arange(4.0), "no such statistic")
    ck.expect(is_raised(got, "ValueError"), "an unknown statistic is refused", got=got)
