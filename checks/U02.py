"""U02: reference subtraction, binning and geometry helpers of core.utils."""
import numpy as np

from common import close, is_raised, nonvacuous, same_ints, unit

NONE = -1000


def edges_cases(rng, n):
    out = []
    for _ in range(n):
        a = dict(op="edges", min=int(rng.randint(-20, 20)), max=0, nbins=int(rng.randint(1, 9)), step=int(rng.randint(1, 9)))
        a["max"] = a["min"] + int(rng.randint(1, 40))
        if rng.randint(12) == 0:
            a["max"] = a["min"] - int(rng.randint(0, 3))
        if rng.randint(12) == 0:
            a["nbins"] = int(rng.randint(-2, 1))
        keys = ["min", "max", "nbins", "step"]
        if rng.randint(10):
            a[keys[rng.randint(4)]] = NONE
        else:
            for k in keys:
                if rng.randint(2):
                    a[k] = NONE
        out.append(a)
    # a step that almost divides the range; very many bins
    for _ in range(n // 8):
        st = int(rng.choice([1000, 5000, 20000]))
        mn = int(rng.randint(-900, 900))
        out.append(dict(op="edges", min=mn, max=mn + st * int(rng.randint(1, 9)) + int([-3, -1, 1, 2][rng.randint(4)]), nbins=NONE, step=st))
    for k in range(n // 40):
        a = dict(op="edges", min=int(rng.randint(-9, 9)), max=5000, nbins=int(rng.randint(700, 3000)), step=int(rng.randint(1, 7)))
        a["min max nbins step".split()[k % 4]] = NONE
        out.append(a)
    return out


def bin_cases(rng, n):
    out = []
    for _ in range(n):
        a = dict(op="bin", lo=int(rng.randint(-9, 9)), w=4, n=int(rng.randint(1, 7)))
        m = int(rng.randint(1, 14))
        if rng.randint(25) == 0:
            m, a["n"] = int(rng.randint(200, 400)), int(rng.randint(100, 300))
        hi = a["lo"] + a["n"] * a["w"]
        a["x"] = [int(v) for v in rng.randint(a["lo"] - 3, hi + 4, m)]
        for j in range(m):
            if rng.randint(4) == 0:
                a["x"][j] = int([a["lo"], hi][rng.randint(2)])
        # sums of narrow numbers go beyond what their type holds
        a["dt"] = ["float64", "int64", "uint8", "int16", "uint16"][rng.randint(5)]
        a["y"] = [int(v) for v in rng.randint(*{"uint8": (150, 256), "int16": (-32768, 32768), "uint16": (30000, 65536)}.get(a["dt"], (-4, 12)), m)]
        a["how"] = int(rng.randint(3))
        out.append(a)
    return out


def grid_cases(rng, n):
    return [dict(op="grid", rows=int(rng.randint(1, 6)) if k % 15 else int(rng.randint(15, 30)),
                 cols=int(rng.randint(1, 7)) if k % 10 else int(rng.randint(15, 30)), cy=int(rng.randint(-6, 14)),
                 cx=int(rng.randint(-6, 14)), py=int(rng.randint(1, 4)), px=int(rng.randint(1, 4))) for k in range(n)]


def check_edges(ck, utils, a, ans, rng):
    unit = [1.0, 0.5, 0.25, 0.1, 1 / 3.0, 1e-4, 7.3, 2.0**-30, 2.0**-45, 2.0**30][rng.randint(10)]
    exact = unit in (1.0, 0.5, 0.25, 2.0**-30, 2.0**-45, 2.0**30)
    kw = {}
    for k, n in (("min", "range_min"), ("max", "range_max"), ("step", "step")):
        if a[k] != NONE:
            kw[n] = a[k] * unit if unit != 1.0 or rng.randint(2) else a[k]
    if a["nbins"] != NONE:
        kw["nbins"] = a["nbins"]
    got = ck.real(utils.bin_edges, **kw)
    if ans == ["refused"]:
        if not exact and a["min"] != NONE and a["max"] != NONE and a["step"] != NONE and a["nbins"] == NONE:
            return
        ck.expect(is_raised(got, "ValueError"), "bin_edges: impossible requests are refused", args=kw, got=got)
        return
    if is_raised(got):
        # a step equal to the range is on the border in floating point
        if not exact and a["nbins"] == NONE and a["step"] == a["max"] - a["min"]:
            return
        ck.fail("bin_edges: edges are made", args=kw, error=got)
        return
    want = np.array([p[0] / p[1] for p in ans]) * unit
    if a["nbins"] == NONE and not exact:
        # documented: from min in steps, not beyond max, last gap at most one step
        got = np.asarray(got)
        tol = 1e-9 * unit
        mn, mx, st = a["min"] * unit, a["max"] * unit, a["step"] * unit
        ok = abs(got[0] - mn) < tol and np.all(np.abs(np.diff(got) - st) < tol) and got[-1] <= mx and mx - got[-1] <= st + tol
        ck.expect(ok, "bin_edges: edges from min to max in steps", args=kw, got=got)
    else:
        ck.expect(close(np.asarray(got) / unit, want / unit, rtol=1e-10, atol=1e-12), "bin_edges: the edges that were asked for", args=kw, got=got, want=want)
    ck.traced()


def check_bin(ck, utils, a, ans, rng):
    unit = [1.0, 0.5, 2.0, 1.0, 2.0**-30, 2.0**-45, 2.0**20][rng.randint(7)]
    x = np.array(a["x"]) * unit
    y = np.array(a["y"], dtype=a["dt"])
    tenth = 0.1 if y.dtype == float else 1
    y = y * tenth if tenth != 1 else y
    lo, hi = a["lo"] * unit, (a["lo"] + a["n"] * a["w"]) * unit
    kw = dict(nx=a["n"], min_x=lo, max_x=hi)
    if a["how"] == 1:        # the limits are the default ones
        x = np.concatenate([x[(x >= lo) & (x <= hi)], [lo, hi]])
        y = np.concatenate([y[(np.array(a["x"]) * unit >= lo) & (np.array(a["x"]) * unit <= hi)], np.zeros(2, y.dtype)])
        kw = dict(nx=a["n"])
    keep = x.copy(), y.copy()
    got = ck.real(utils.bin_1D, x, y, **kw)
    case = dict(x=x, y=y, kw=kw)
    if is_raised(got) or len(got) != 3:
        ck.fail("bin_1D: values are binned", error=got, **case)
        return
    cnt = np.array([p[1] for p in ans])
    if a["how"] == 1:
        cnt[0] += 1
        cnt[-1] += 1
    ck.expect(close(np.asarray(got[0]) / unit, np.linspace(lo, hi, a["n"] + 1) / unit), "bin_1D: equal bins between the limits", got=got[0], **case)
    sums = [p[0] * tenth for p in ans]
    ck.expect(close(got[1], sums), "bin_1D: sum of the values in each bin", got=got[1], want=sums, **case)
    ck.expect(same_ints(got[2], cnt), "bin_1D: number of points in each bin", got=got[2], want=cnt, **case)
    ck.expect(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), "bin_1D leaves its arguments alone", **case)
    if a["how"] == 2 and unit == 1.0:
        got = ck.real(utils.bin_1D, x, y, min_x=lo, max_x=hi)
        ok = not is_raised(got) and len(got[1]) == int(hi - lo) and close(got[0], np.arange(lo, hi + 1))
        ok = ok and close(got[1].reshape(a["n"], a["w"]).sum(axis=1), sums)
        ck.expect(ok, "bin_1D: one bin per unit by default", got=got, **case)
    if rng.randint(20) == 0:
        # positions over all that their type holds
        xt = rng.randint(-128, 128, 50).astype(np.int8)
        got = ck.real(utils.bin_1D, xt, np.ones(50))
        lo8, hi8 = int(xt.min()), int(xt.max())
        want = np.bincount(np.minimum(xt.astype(int) - lo8, hi8 - lo8 - 1), minlength=hi8 - lo8)
        ck.expect(not is_raised(got) and same_ints(got[2], want) and close(got[1], want) and close(got[0], np.arange(lo8, hi8 + 1)),
                  "bin_1D: one bin per unit by default, whatever the type", x=xt, got=got, want=want)
    # edges to centers: the middle of each bin
    if kw.get("min_x") is not None and unit in (1.0, 0.5, 2.0):
        frac = [0.25, 0.5, 0.75][rng.randint(3)]
        got = ck.real(utils.bin_1D, x, y, min_x=lo, max_x=hi + frac)
        nb = int(np.floor(hi + frac - lo))
        ok = not is_raised(got) and len(got[1]) == len(got[2]) == nb and close(got[0], np.linspace(lo, hi + frac, nb + 1))
        ck.expect(ok, "bin_1D: equal bins over a range that is not whole", got=got, frac=frac, **case)
        if ok:
            ck.expect(int(np.sum(got[2])) == int(((x >= lo) & (x <= hi + frac)).sum()), "bin_1D: every point of the range once", got=got, frac=frac, **case)
    e = np.sort(rng.choice(1000, rng.randint(2, 9), replace=False)) * unit / 4
    big = 2.0**26 * max(1.0, unit) + e
    got = ck.real(utils.bin_edges_to_centers, big)
    ck.expect(close(got, [(big[k] + big[k + 1]) / 2 for k in range(len(e) - 1)], rtol=1e-13), "bin_edges_to_centers of large edges", edges=big, got=got)
    form = [e, list(e), e[::-1][::-1], e.astype(np.float32)][rng.randint(4)]
    got = ck.real(utils.bin_edges_to_centers, form)
    ck.expect(not is_raised(got) and close(np.asarray(got) / unit, [(e[k] + e[k + 1]) / 2 / unit for k in range(len(e) - 1)], rtol=1e-6), "bin_edges_to_centers", edges=e, got=got)
    t = [np.uint8, np.int8, np.int16, np.uint16, np.int32][rng.randint(5)]
    e = np.sort(rng.randint(np.iinfo(t).max // 2, np.iinfo(t).max, 5)).astype(t)
    got = ck.real(utils.bin_edges_to_centers, e)
    ck.expect(close(got, [(int(e[k]) + int(e[k + 1])) / 2 for k in range(4)]), "bin_edges_to_centers of whole numbers", edges=e, got=got)
    ck.traced()


def known_swap(got, shape, center, px, img):
    """The listed finding: on images that are not square x runs over the first
    axis, so coordinates and intensities are paired wrongly."""
    if shape[0] == shape[1]:
        return False
    n, m = shape
    x = np.tile((np.arange(n) - center[1]) * px[1], m)
    y = np.repeat((np.arange(m) - center[0]) * px[0], n)
    f = max(px)
    return bool(close(np.asarray(got[0]) / f, x / f) and close(np.asarray(got[1]) / f, y / f) and same_ints(got[2], img.ravel()))


def check_grid(ck, utils, a, ans, rng):
    """The centre is in half pixels in the model."""
    s = [1.0, 0.3, 1e-3, 12.5, 2.0**-30, 1e-8, 2.0**20][rng.randint(7)]
    center = (a["cy"] / 2.0, a["cx"] / 2.0)
    shape = (a["rows"], a["cols"])
    px = None if (a["px"] == 1 and a["py"] == 1 and rng.randint(2)) else (a["py"] * s, a["px"] * s)
    f = 1.0 if px is None else s
    x = np.array([[p[0] for p in r] for r in ans]) * f / 2
    y = np.array([[p[1] for p in r] for r in ans]) * f / 2
    r2 = np.array([[p[2] for p in r] for r in ans]) * f * f / 4
    case = dict(center=center, shape=shape, pixel_size=px)
    got = ck.real(utils.radial_grid, center, shape, pixel_size=px)
    ck.expect(not is_raised(got) and np.shape(got) == shape and np.all(np.asarray(got) >= 0) and close(np.square(got) / f**2, r2 / f**2, rtol=1e-9, atol=1e-12),
              "radial_grid: distance of each pixel from the centre", got=got, want=np.sqrt(r2), **case)
    got = ck.real(utils.angle_grid, center, shape, pixel_size=px)
    r = np.sqrt(r2)
    ok = not is_raised(got) and np.shape(got) == shape
    if ok:
        got = np.asarray(got)
        nz = r2 > 0
        ok = bool(np.all(np.abs(got) <= np.pi + 1e-12)) and close((r * np.cos(got))[nz] / f, x[nz] / f, atol=1e-9) and close((r * np.sin(got))[nz] / f, y[nz] / f, atol=1e-9)
    ck.expect(ok, "angle_grid: direction of each pixel from the centre", got=got, **case)
    # relative coordinates of every pixel of an image
    img = rng.randint(0, 100, shape)
    kw = {} if px is None else dict(pixel_size_x=px[1], pixel_size_y=px[0])
    got = ck.real(utils.img_to_relative_xyi, img, center[1], center[0], **kw)
    if is_raised(got) or len(got) != 3 or any(np.shape(g) != (img.size,) for g in got):
        ck.fail("img_to_relative_xyi: three lists, one entry per pixel", got=got, **case)
    else:
        ok = close(np.asarray(got[0]) / f, x.ravel() / f) and close(np.asarray(got[1]) / f, y.ravel() / f) and same_ints(got[2], img.ravel())
        ck.expect(ok, "img_to_relative_xyi: x is the column, y the row, relative to the centre", got=got,
                  swapped=known_swap(got, shape, center, px or (1, 1), img), **case)
        if shape[0] != shape[1]:
            ok = sorted(map(float, got[2])) == sorted(map(float, img.ravel()))
            ck.expect(ok, "img_to_relative_xyi: every intensity once", got=got, **case)
    # azimuthal integration over a given radius map
    if rng.randint(2):
        bins = (np.arange(0, int(np.ceil(r.max() / f)) + 2) + 0.5) * f
        bins = np.concatenate([[-f], bins])
        mask = rng.randint(0, 3, shape) > 0
        use = mask if rng.randint(2) else None
        if mask.any():
            img = img / 3.0 if rng.randint(2) else img
            sel = mask if use is not None else np.ones(shape, bool)
            got = ck.real(utils.bin_grid, img, r, (1.0, 1.0), mask=use, bins=bins,
                          **(dict(statistic="sum") if a["rows"] % 2 else dict(statistic="mean") if rng.randint(2) else {}))
            rr, vv = r[sel], img[sel]
            want = []
            for k in range(len(bins) - 1):
                m = (rr >= bins[k]) & (rr < bins[k + 1])
                want.append((vv[m].mean() if m.any() else np.nan) if a["rows"] % 2 == 0 else vv[m].sum())
            near = np.min(np.abs(rr[:, None] - bins[None, :])) < 1e-6 * f
            if not near:
                ok = not is_raised(got) and close(np.asarray(got[0]) / f, (bins[1:] + bins[:-1]) / 2 / f) and close(got[1], want)
                ck.expect(ok, "bin_grid: statistic of the unmasked pixels of each bin", got=got, want=want, bins=bins, mask=use, **case)
    # with default bins no pixel is lost
    ps = (px or (1.0, 1.0))
    got = ck.real(utils.bin_grid, img, r, ps, statistic="count")
    ok = not is_raised(got) and int(np.nansum(got[1])) == img.size and len(got[0]) == len(got[1])
    ck.expect(ok, "bin_grid: the default bins hold every pixel", got=got, **case)
    # the default bins belong to the radius map, not to the mask
    mask = (r > r.min()) & (r < r.max())
    if ok and mask.any():
        m = ck.real(utils.bin_grid, img, r, ps, statistic="count", mask=mask)
        ck.expect(not is_raised(m) and close(np.asarray(m[0]) / f, np.asarray(got[0]) / f) and int(np.nansum(m[1])) == int(mask.sum()),
                  "bin_grid: default bins with a mask", got=m, unmasked=got, **case)
    ck.traced()


def reference(ck, utils, rng):
    r = ck.tlc("RefSub", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Nearest Complete Ordered Report\nCONSTANT MaxLen = %d\n" % ck.size(8, 12))
    nonvacuous(len(r.out) > 200, "reference series")
    for e in r.out:
        fl = e["flags"]
        dt = [float, np.int32, np.int64, np.float32, np.uint8, np.uint16, np.uint32][rng.randint(7)]
        shape = [(2, 2), (1, 3), (4,)][rng.randint(3)]
        imgs = rng.randint(0, 50 if rng.randint(2) else 256, (len(fl),) + shape).astype(dt)
        keep = imgs.copy()
        flags = [fl, np.array(fl), np.array(fl).astype(int), [int(f) for f in fl]][rng.randint(4)]
        src = imgs if rng.randint(2) else list(imgs)
        if rng.randint(3) == 0:      # frames of several number types
            src = [imgs[k].astype([np.uint8, np.int16, np.uint16, np.int32, float][rng.randint(5)]) for k in range(len(fl))]
            wide = rng.randint(2)
            for k in range(len(fl)):
                if bool(fl[k]) == bool(wide):
                    src[k] = imgs[k].astype(np.int64) + 70000
            keep = [np.array(s) for s in src]
            imgs = [s for s in src]
        got = ck.real(utils.subtract_reference_images, src, flags)
        want = [keep[a - 1].astype(float) - keep[b - 1] for a, b in e["out"]]
        ok = not is_raised(got) and len(got) == len(want) and all(close(g, w) for g, w in zip(got, want))
        ck.expect(ok, "subtract_reference_images: each measurement minus the latest reference", flags=fl, got=got, want=want)
        ck.expect(all(np.array_equal(p, q) for p, q in zip(imgs, keep)), "subtract_reference_images leaves the images alone", flags=fl)
        ck.traced()
        if len(fl) < 8:
            bad = ck.real(utils.subtract_reference_images, list(imgs[:1]) + list(imgs), [False] + list(fl))
            ck.expect(is_raised(bad, "ValueError"), "a series that starts with a measurement is refused", flags=[False] + fl, got=bad)


def conversions(ck, utils, rng):
    """Anchors with exact sines, and each conversion undoes its inverse."""
    for _ in range(ck.size(300, 3000)):
        lam = rng.uniform(0.1, 3) * unit(rng)
        # sin(theta) = 0, 1/2, 1  <=>  2 theta = 0, 60, 180 degrees; q = 4 pi sin / lambda
        for s, tt in ((0.0, 0.0), (0.5, np.pi / 3), (1.0, np.pi)):
            q = 4 * np.pi * s / lam
            ck.expect(close(np.multiply(ck.real(utils.twotheta_to_q, tt, lam), lam), q * lam), "twotheta_to_q at exact angles", tt=tt, wavelength=lam)
            if s < 1:
                ck.expect(close(ck.real(utils.q_to_twotheta, q, lam), tt), "q_to_twotheta at exact angles", q=q, wavelength=lam)
        small = float([1.0, 1.0, 1e-3, 1e-6][rng.randint(4)])
        tt = rng.uniform(0.01, 3.0, rng.randint(1, 6)) * rng.choice([-1, 1]) * small
        q = ck.real(utils.twotheta_to_q, tt, lam)
        back = ck.real(utils.q_to_twotheta, q, lam)
        ck.expect(not is_raised(back) and close(np.asarray(back) / small, tt / small, rtol=1e-6), "q_to_twotheta undoes twotheta_to_q", tt=tt, wavelength=lam, got=back)
        far = 4 * np.pi / lam * rng.uniform(1.001, 3)
        got = ck.real(utils.q_to_twotheta, far, lam)
        ck.expect(is_raised(got) or bool(np.all(np.isnan(got))), "no angle scatters farther than straight back", q=far, wavelength=lam, got=got)
        one = unit(rng)
        d = rng.uniform(0.1, 20, rng.randint(1, 6)) * one
        q = ck.real(utils.d_to_q, list(d))
        ck.expect(not is_raised(q) and close(np.asarray(q) * d, np.full(len(d), 2 * np.pi)) and close(np.divide(ck.real(utils.q_to_d, q), one), d / one),
                  "d and q are reciprocal (2 pi)", d=d, got=q)
        one = unit(rng)
        dist = rng.uniform(1, 500) * one
        rad = rng.uniform(0, 400, rng.randint(1, 6)) * rng.choice([-1, 1]) * one * small
        got = ck.real(utils.radius_to_twotheta, dist, rad)
        ck.expect(not is_raised(got) and close(np.tan(got) * dist / one / small, rad / one / small, rtol=1e-6) and close(ck.real(utils.radius_to_twotheta, dist, np.array([dist])), [np.pi / 4]),
                  "radius_to_twotheta: the tangent is radius over distance", dist=dist, radius=rad, got=got)
        seq = list(rng.randint(0, 9, rng.randint(0, 6)))
        form = [seq, tuple(seq), iter(seq), (x for x in seq)][rng.randint(4)]
        got = ck.real(lambda: list(utils.pairwise(form)))
        ck.expect(got == [(seq[i], seq[i + 1]) for i in range(len(seq) - 1)], "pairwise", seq=seq, got=got)
    ck.traced(ck.size(300, 3000))


def run(ck):
    from skbeam.core import utils

    rng = ck.np_rng
    reference(ck, utils, rng)
    n = ck.size(350, 4000)
    cases = edges_cases(rng, n) + bin_cases(rng, n) + grid_cases(rng, n // 2)
    r = ck.tlc("Helpers", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Right Report\nCONSTANTS Cases <- CasesDef\n",
               data=cases, defs="CasesDef == Data")
    nonvacuous(len(r.out) == len(cases), "one answer per case")
    refused = 0
    for e in sorted(r.out, key=lambda e: e["case"]):
        a = cases[e["case"] - 1]
        refused += e["ans"] == ["refused"]
        {"edges": check_edges, "bin": check_bin, "grid": check_grid}[a["op"]](ck, utils, a, e["ans"], rng)
        if a["op"] == "bin":
            ck.sample(case=a, ans=e["ans"])
    nonvacuous(refused > 10, "refusals")
    conversions(ck, utils, rng)
    for px, py in ((None, 1), (1, None), (0, 1), (1, 0), (-1, 1)):
        got = ck.real(utils.img_to_relative_xyi, np.ones((2, 2)), 0, 0, pixel_size_x=px, pixel_size_y=py)
        ck.expect(is_raised(got, "ValueError"), "img_to_relative_xyi: senseless pixel sizes are refused", px=px, py=py, got=got)
