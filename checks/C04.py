"""C04: CrossCorrelator against the direct masked sum."""
import numpy as np

from common import close, is_raised, nonvacuous, unit


def predict(done, a, b, norm):
    outs = []
    for reg in done:
        h, w = reg["h"], reg["w"]
        out = np.full((2 * h + 1, 2 * w + 1), np.nan)
        R = [tuple(p) for p in reg["region"]]
        ma = np.mean([a[p] for p in R])
        mb = np.mean([b[p] for p in R])
        for d, prs in reg["cells"]:
            if not prs:
                continue
            pa = np.array([a[tuple(p)] for p, q in prs], dtype=float)
            pb = np.array([b[tuple(q)] for p, q in prs], dtype=float)
            v = (pa * pb).sum()
            n = len(prs)
            with np.errstate(all="ignore"):
                if "symavg" in norm:
                    v = v * n / pa.sum() / pb.sum()
                if "regular" in norm:
                    v = v / (n * ma * mb)
            if not norm:
                pass
            out[d[0] + h, d[1] + w] = v
        outs.append(out)
    return outs


def grids(ck):
    g = [(1, 5, 2), (2, 3, 1), (2, 2, 3), (1, 3, 3), (3, 1, 2)]
    return g + ([(2, 3, 2), (3, 3, 1), (1, 7, 2), (3, 2, 2), (2, 4, 1)] if ck.thorough else [])


def run(ck):
    from skbeam.core.correlation import CrossCorrelator

    rng = ck.np_rng
    for nr, nc, nid in grids(ck):
        r = ck.tlc("CrossCorr", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Complete\n"
                   "CONSTANTS NR=%d NC=%d NIds=%d\n" % (nr, nc, nid))
        nonvacuous(r.out, "no behaviour")
        cases = r.out
        ck.rng.shuffle(cases)
        if len(cases) > ck.size(260, 10**9):
            cases = cases[: ck.size(260, 10**9)]
        for k, e in enumerate(cases):
            mask = np.array(e["mask"])
            # distinct labels need not be contiguous
            relabel = np.array([0, 2, 5, 11])[: nid + 1] if k % 2 else np.arange(nid + 1)
            m = relabel[mask]
            if k % 3 == 0:
                m = m.astype(float)
            one_d = nr == 1 and k % 4 != 1
            a = rng.randint(1, 9, (nr, nc)).astype([float, [np.int64, np.uint8, np.int8, np.int16, np.float32][rng.randint(5)]][k % 2])
            b = rng.randint(1, 9, (nr, nc)).astype(float) * unit(rng)
            if k % 2 == 0:
                a = a * unit(rng)
            if k % 5 < 2:  # outside the regions there may be anything
                b[mask == 0] = [np.nan, np.inf, -1e300][rng.randint(3)]
                if k % 2 == 0:
                    a[mask == 0] = [np.nan, np.inf, 1e300][rng.randint(3)]
            norm = [["regular"], ["symavg"], ["regular", "symavg"]][k % 3]
            A, B, M = (x.reshape(-1) if one_d else x for x in (a, b, m))
            how = k % 4
            norm2 = [["symavg"], ["regular"], "symavg", ["regular", "symavg"]][rng.randint(4)]
            own = norm if how in (1, 2) else ["regular"]
            a0, b0, m0 = A.copy(), B.copy(), M.copy()
            case = dict(mask=M, img1=A, img2=B, normalization=norm, how=how)

            def go():
                if how == 0 and norm == ["regular"]:
                    cc = CrossCorrelator(A.shape, mask=M)
                elif how in (1, 2):
                    cc = CrossCorrelator(A.shape, mask=M, normalization=norm if len(norm) > 1 else norm[0])
                else:
                    cc = CrossCorrelator(A.shape, mask=M, normalization="regular")
                kw = {"normalization": norm} if how in (0, 3) else {}
                first = cc(A, B, **kw)
                # the object is reusable: what it computed before leaves no trace
                auto = cc(A, **kw)
                again = cc(A, B, **kw)
                # a normalisation asked for in one call is for that call
                other = cc(A, B, normalization=norm2)
                default = cc(A, B)
                return cc, first, auto, again, other, default

            got = ck.real(go)
            if is_raised(got):
                ck.fail("a correlation is computed", error=got, **case)
                continue
            cc, first, auto, again, other, default = got
            nid_here = len(e["done"])
            ck.expect(cc.nids == nid_here, "nids is the number of distinct labels", got=cc.nids, want=nid_here, **case)
            for what, res, want in (("cross", first, predict(e["done"], a, b, norm)),
                                    ("auto", auto, predict(e["done"], a, a, norm)),
                                    ("cross again", again, predict(e["done"], a, b, norm)),
                                    ("other normalisation", other, predict(e["done"], a, b, norm2)),
                                    ("own normalisation", default, predict(e["done"], a, b, own))):
                if one_d:
                    want = [w.reshape(-1) for w in want]
                lst = [res] if nid_here == 1 else res
                ok = isinstance(lst, list) and len(lst) == nid_here and all(
                    close(x, w, rtol=1e-6, atol=1e-7) for x, w in zip(lst, want))
                ck.expect(ok, "correlation per region and displacement (%s)" % what, got=lst, want=want, **case)
            # where the zero displacement and the axes are
            pos = [cc.positions] if nid_here == 1 else cc.positions
            cen = [cc.centers] if nid_here == 1 else cc.centers
            for reg, p, c in zip(e["done"], pos, cen):
                h, w = reg["h"], reg["w"]
                wantp = np.arange(-w, w + 1) if one_d else [np.arange(-h, h + 1), np.arange(-w, w + 1)]
                okp = close(p, wantp) if one_d else (len(p) == 2 and close(p[0], wantp[0]) and close(p[1], wantp[1]))
                ck.expect(okp and close(c, [h, w]), "positions and centers give the displacement axes", got=[p, c],
                          want=[wantp, [h, w]], **case)
            ck.expect(np.array_equal(a0, A, equal_nan=True) and np.array_equal(b0, B, equal_nan=True) and np.array_equal(m0, M),
                      "inputs are left alone", **case)
            ck.traced()
            ck.sample(mask=M, norm=norm, n_regions=nid_here)
    # no mask: the whole image is one region; wrong shapes are refused
    for shape in ((6,), (3, 4)):
        a = rng.randint(1, 9, shape).astype(float)
        got = ck.real(lambda: CrossCorrelator(shape)(a))
        want = ck.real(lambda: CrossCorrelator(shape, mask=np.ones(shape, dtype=int))(a))
        ck.expect(not is_raised(got) and close(got, want, rtol=1e-6), "no mask means the whole image", got=got, want=want)
        bad = rng.randint(1, 9, tuple(n + 1 for n in shape)).astype(float)
        for args in ((bad,), (a, bad)):
            got = ck.real(lambda: CrossCorrelator(shape)(*args))
            ck.expect(is_raised(got, "ValueError"), "an image of another shape is refused", got=got, shape=list(shape))
    got = ck.real(lambda: CrossCorrelator((2, 2, 2)))
    ck.expect(is_raised(got, "ValueError"), "three dimensions are refused", got=got)
    for t in range(ck.size(24, 300)):
        big(ck, CrossCorrelator, rng, t)


def direct(p, a, b, norm):
    """The sums of CrossCorr.tla for the pixels p of a region, all pairs at once."""
    lo, ext = p.min(axis=0), p.max(axis=0) - p.min(axis=0)
    d = (p[None, :, :] - p[:, None, :] + ext).reshape(-1, 2)
    shape = tuple(2 * ext + 1)
    va, vb = a[p[:, 0], p[:, 1]].astype(float), b[p[:, 0], p[:, 1]].astype(float)
    n, s, sa, sb = (np.zeros(shape) for _ in range(4))
    pa, pb = (np.ravel(x) for x in np.broadcast_arrays(va[:, None], vb[None, :]))
    for acc, w in ((n, 1.0), (s, pa * pb), (sa, pa), (sb, pb)):
        np.add.at(acc, (d[:, 0], d[:, 1]), w)
    with np.errstate(all="ignore"):
        if "symavg" in norm:
            s = s * n / sa / sb
        if "regular" in norm:
            s = s / (n * va.mean() * vb.mean())
    return np.where(n > 0, s, np.nan)


def big(ck, CrossCorrelator, rng, t):
    """Large, sparse, concave and interleaved regions, many labels, counts of any size."""
    kind = t % 6
    shape = tuple(int(v) for v in rng.randint(9, 34, 2))
    if kind == 0:                                   # two blocks far apart
        m = np.zeros(shape, dtype=int)
        m[:2, :3] = 1
        m[-2:, -1:] = 1
    elif kind == 1:                                 # sparse
        m = (rng.randint(0, 12, shape) == 0) * rng.randint(1, 4, shape)
    elif kind == 2:                                 # rings
        y, x = np.mgrid[:shape[0], :shape[1]]
        m = (np.hypot(y - shape[0] / 2.0, x - shape[1] / 3.0) / 4).astype(int)
    elif kind == 3:                                 # more labels than a byte holds
        m = np.arange(shape[0] * shape[1]).reshape(shape) // 2 * int(rng.choice([1, 3, 70001])) + int(rng.randint(0, 2))
    elif kind == 4:                                 # one region, nearly everything
        m = (rng.randint(0, 9, shape) > 0).astype(int)
    else:                                           # a curve, two interleaved regions
        shape = (1, int(rng.randint(40, 130)))
        m = rng.randint(0, 3, shape)
    if not m.any():
        m[0, 0] = 1
    labels = [v for v in np.unique(m) if v]
    top = int(rng.choice([3, 100, 10**5]))
    a, b = rng.randint(1, top, shape), rng.randint(1, top, shape).astype([float, np.uint16 if top < 65536 else int][rng.randint(2)])
    if rng.randint(3) == 0:
        a, b = a * unit(rng), b * unit(rng)
    norm = [["regular"], ["symavg"], ["regular", "symavg"]][rng.randint(3)]
    if rng.randint(2) == 0 and norm == ["regular"]:
        # few photons: some pixels of a region see none, never all of them
        c, d = a * (rng.randint(0, 3, shape) > 0), b * (rng.randint(0, 3, shape) > 0)
        dark = np.isin(m, [v for v in labels if not (c[m == v].any() and d[m == v].any())])
        a, b = np.where(dark, a, c), np.where(dark, b, d)
    A, B, M = (x.reshape(-1) if kind == 5 else x for x in (a, b, m))
    got = ck.real(lambda: CrossCorrelator(A.shape, mask=M, normalization=norm)(A, B))
    k, lst = 0, [got] if len(labels) == 1 else got
    ok = not is_raised(got) and len(lst) == len(labels)
    for k, v in enumerate(labels if ok else []):
        want = direct(np.argwhere(m == v), a, b, norm)
        want = want.reshape(-1) if kind == 5 else want
        ok = np.shape(lst[k]) == want.shape and close(lst[k], want, rtol=1e-6, atol=1e-6 * np.nanmax(want))
        if not ok:
            break
    ck.expect(ok, "correlation per region and displacement (large regions)", mask=M, img1=A, img2=B, normalization=norm, region=k,
              got=lst[k] if not is_raised(got) and len(lst) > k else got)
    ck.traced()
