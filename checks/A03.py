"""A03: gridding of scattered points onto a regular grid by a thread team."""
import ctypes
import itertools

import numpy as np

from common import close, is_raised, nonvacuous, same_ints


def rand_case(rng):
    exact = bool(rng.randint(2))
    axes = []
    for _ in range(3):
        n = int(rng.choice([1, 2, 4, 8])) if exact else int(rng.randint(1, 8))
        axes.append(dict(lo=int(rng.randint(-20, 20)), w=int(rng.choice([1, 2, 4])) if exact else 4, n=n))
    shape = [(1, 1, 1), (1, 3, 4), (2, 2, 3), (3, 1, 5), (2, 5, 1), (3, 3, 3)][rng.randint(6)]
    npts = int(np.prod(shape))
    lim = [(a["lo"], a["lo"] + a["n"] * a["w"]) for a in axes]
    pts = []
    out = rng.choice([0, 0, 3])
    for _ in range(npts):
        p = []
        for (lo, hi), a in zip(lim, axes):
            x = int(rng.randint(lo - out, hi + out))
            if exact and rng.randint(4) == 0:
                x = int(rng.choice([lo, hi, hi - 1, lo - 1])) if out else int(rng.choice([lo, hi - 1]))
            if not exact and (x - lo) % a["w"] == 0:
                x += 1                 # away from edges that are not exact in floating point
            p.append(x)
        pts.append(p)
    return dict(axes=axes, shape=shape, exact=exact, pts=pts,
                mask=str(rng.choice(["none", "none", "2d", "3d"])), kind=str(rng.choice(["bool", "int", "uint8"])),
                bits=[int(b) for b in rng.randint(0, 2, npts)], bits2=[int(b) for b in rng.randint(0, 2, shape[1] * shape[2])],
                nan=[int(rng.randint(6) == 0) for _ in range(npts)] if rng.randint(3) == 0 else [0] * npts,
                inten=[int(v) for v in rng.randint(-5, 9, npts)] if rng.randint(4) else [int(rng.randint(1, 9))] * npts,
                # points without a position: one coordinate is not a number or infinite
                lost=[int(rng.randint(4) == 0) * int(rng.randint(1, 4)) for _ in range(npts)] if rng.randint(4) == 0 else [0] * npts,
                layout=int(rng.randint(4)), cuts=cuts(rng, npts))


def cuts(rng, npts):
    """Number of points after each sitting."""
    return sorted(int(v) for v in rng.randint(0, npts + 1, rng.randint(0, 3))) + [npts]


def model(case):
    per = case["shape"][1] * case["shape"][2]
    pts = []
    for j, p in enumerate(case["pts"]):
        ok = not case["nan"][j] and not case["lost"][j]
        if case["mask"] == "3d":
            ok = ok and bool(case["bits"][j])
        elif case["mask"] == "2d":
            ok = ok and bool(case["bits2"][j % per])
        pts.append(dict(p=p, i=case["inten"][j], ok=ok))
    return dict(axes=case["axes"], pts=pts, cuts=case["cuts"])


def table(vox, n):
    w = dict(n=np.zeros(n), s=np.zeros(n), s2=np.zeros(n))
    for x, y, z, c0, s, s2 in vox:
        w["n"][x, y, z], w["s"][x, y, z], w["s2"][x, y, z] = c0, s, s2
    with np.errstate(all="ignore"):
        mean = w["s"] / w["n"]
        err = np.where(w["n"] > 0, np.sqrt(np.maximum(w["s2"] / w["n"] - mean**2, 0) / w["n"]), 0)
    return w, mean, err


def run(ck):
    from skbeam.core.utils import grid3d
    from skbeam.ext import ctrans

    gomp = None
    try:
        gomp = ctypes.CDLL("libgomp.so.1")
    except OSError:
        ck.assume("libgomp not loadable: one thread count only")

    def threads(n):
        if gomp is not None:
            gomp.omp_set_num_threads(n)

    rng = ck.np_rng
    # 1. every schedule of a few points over a thread team
    axes = [dict(lo=0, w=2, n=2), dict(lo=-1, w=1, n=1), dict(lo=0, w=3, n=1)]
    small = []
    for xs in itertools.product((-1, 0, 1, 3, 4), repeat=3):
        small.append(dict(axes=axes, pts=[dict(p=[x, -1, 1], i=j + 1, ok=j != 2 or x > 0) for j, x in enumerate(xs)],
                          cuts=[3] if sum(xs) % 2 else [1, 3]))
    r = ck.tlc("Grid3d", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Exact InGrid\n"
               "CONSTANTS Cases <- CasesDef NThreads = %d\n" % ck.size(2, 3), data=small[:: ck.size(3, 1)], defs="CasesDef == Data",
               workers=4, name="Grid3d/schedules")
    nonvacuous(r.distinct > 500, "schedules")
    # 2. the result of many cases, against the code
    cases = [rand_case(rng) for _ in range(ck.size(500, 6000))]
    r = ck.tlc("Grid3d", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Exact InGrid Report\n"
               "CONSTANTS Cases <- CasesDef NThreads = 1\n", data=[model(c) for c in cases], defs="CasesDef == Data",
               name="Grid3d/cases")
    nonvacuous(len(r.out) == sum(len(c["cuts"]) for c in cases), "one result per sitting")
    every = {(e["case"], e["sit"]): e["vox"] for e in r.out}
    res = {k: every[k, len(c["cuts"])] for k, c in enumerate(cases, 1)}
    teams = (1, 2, 3, 4, 8, 24)
    resumed = 0
    for k, case in enumerate(cases):
        ax = case["axes"]
        if case["exact"]:
            far = [0, 0, 0, -60, -36, 36][rng.randint(6)]
            unit = [2.0 ** (far + int(rng.randint(-4, 3))) for _ in ax]
        else:
            unit = [10.0 ** int(rng.randint(-3, 3)) * rng.uniform(0.5, 2) for _ in ax]
        q = np.array(case["pts"], dtype=float) * unit
        for j, how in enumerate(case["lost"]):
            if how:
                q[j, rng.randint(3)] = [np.nan, np.inf, -np.inf][how - 1]
        lo = [a["lo"] * u for a, u in zip(ax, unit)]
        hi = [(a["lo"] + a["n"] * a["w"]) * u for a, u in zip(ax, unit)]
        n = [a["n"] for a in ax]
        inten = np.array(case["inten"], dtype=float)
        img = np.where(np.array(case["nan"], bool), np.nan, inten).reshape(case["shape"])
        if case["layout"] == 1 and not any(case["nan"]):
            img = img.astype(int)
        elif case["layout"] == 2:
            q = np.asfortranarray(q)
            img = np.asfortranarray(img)
        mask = None
        if case["mask"] == "3d":
            mask = np.array(case["bits"]).reshape(case["shape"]).astype(case["kind"])
        elif case["mask"] == "2d":
            mask = np.array(case["bits2"]).reshape(case["shape"][1:]).astype(case["kind"])
        w, mean, err = table(res[k + 1], n)
        # intensities in any unit
        isc = [1.0, 2.0**-30, 2.0**24, 1 / 3.0, 1000.1][rng.randint(5)] if img.dtype == float else 1
        img = img * isc
        keep = [a.copy() for a in (q, img)] + [None if mask is None else mask.copy()]
        for t in (teams if k % 4 == 0 else (teams[k % 6],)):
            threads(t)
            cs = dict(q=q, img=img, mask=mask, lo=lo, hi=hi, n=n, threads=t)
            got = ck.real(grid3d, q, img, nx=n[0], ny=n[1], nz=n[2], xmin=lo[0], xmax=hi[0], ymin=lo[1], ymax=hi[1],
                          zmin=lo[2], zmax=hi[2], binary_mask=mask)
            if is_raised(got):
                ck.fail("points are gridded", error=got, **cs)
                continue
            gm, go, ge, gb = got
            ck.expect(same_ints(go, w["n"]), "occupancy counts each kept point in its voxel", got=go, want=w["n"], **cs)
            ck.expect(close(gm / isc, mean, rtol=1e-9), "mean intensity of each voxel", got=gm, want=mean, **cs)
            ck.expect(close(ge / isc, err, rtol=1e-6, atol=1e-6), "standard error of each voxel", got=ge, want=err, **cs)
            ck.expect(close(gb, np.array([lo, hi, n]).T), "bounds that were asked for are reported", got=gb, **cs)
            ck.traced()
        if case["mask"] == "none":
            # the same points in several sittings
            rows = np.concatenate([q, img.reshape(-1, 1)], axis=1)
            acc, a = None, 0
            for s, b in enumerate(case["cuts"], 1):
                kw = {} if acc is None else dict(gridout=acc[0], grid2out=acc[1], nout=acc[2])
                if rng.randint(3) == 0:
                    kw["ignore_nan"] = 0
                acc = ck.as_given(ctrans.grid3d, ck.layout(rows[a:b]), lo, hi, n, **kw)  # adds to the grids given
                a = b
                w1, mean1, err1 = table(every[k + 1, s], n)
                ok = not is_raised(acc) and close(acc[0] / isc, w1["s"]) and close(acc[1] / isc**2, w1["s2"]) and same_ints(acc[2], w1["n"]) and close(
                    acc[3] / isc, err1, rtol=1e-6, atol=1e-6)
                ck.expect(ok, "sums go on from those of an earlier call", sitting=s, cuts=case["cuts"], got=acc, want=[w1, err1],
                          rows=rows, lo=lo, hi=hi, n=n)
                resumed += s > 1
                if not ok:
                    break
        ck.expect(np.array_equal(q, keep[0], equal_nan=True) and np.array_equal(img, keep[1], equal_nan=True)
                  and (mask is None or np.array_equal(mask, keep[2])), "inputs are left alone", case=case)
        ck.sample(axes=ax, npts=len(q), occupied=int((w["n"] > 0).sum()))
    # 3. default bounds lose no point, at any scale, offset and sign
    for k in range(ck.size(800, 20000)):
        npts = int(rng.randint(1, 25))
        s = 10.0 ** rng.randint(-6, 5)
        off = [0.0, -1.0, -0.5, rng.uniform(-5, 5) * 10 ** rng.randint(0, 4)][rng.randint(4)] * s
        q = rng.rand(npts, 3) * s + off
        if rng.randint(3) == 0:
            q = rng.randint(-6, 7, (npts, 3))
        if rng.randint(6) == 0:
            q[:, rng.randint(3)] = q[0, 0]
        n = [int(v) for v in rng.randint(1, 7, 3)]
        inten = rng.randint(1, 20, npts) / 4.0
        threads(teams[k % 6])
        got = ck.real(grid3d, q, inten.reshape(1, 1, -1), nx=n[0], ny=n[1], nz=n[2])
        cs = dict(q=q, n=n, inten=inten, threads=teams[k % 6])
        if is_raised(got):
            ck.fail("points are gridded with default bounds", error=got, **cs)
            continue
        gm, go, ge, gb = got
        ck.expect(int(go.sum()) == npts, "default bounds contain every point", got=int(go.sum()), want=npts, **cs)
        ck.expect(close(np.nansum(np.where(go > 0, gm, 0) * go), inten.sum()), "no intensity is lost", **cs)
        ck.expect(close(gb[:, 0], q.min(axis=0)) and close(gb[:, 1], q.max(axis=0)) and same_ints(gb[:, 2], n),
                  "default bounds are the extremes of q", got=gb, **cs)
        ck.traced()
    # 3b. some of the numbers of voxels and of the bounds are given, the rest are the defaults
    for k in range(ck.size(40, 400)):
        npts = int(rng.randint(2, 30))
        q = rng.randint(-40, 41, (npts, 3)) / 8.0
        inten = rng.randint(1, 20, npts) / 4.0
        given = [bool(rng.randint(2)) for _ in range(9)]
        if sum(given[:3]) == 0:
            given[rng.randint(3)] = True           # a million voxels take long
        n = [int(rng.randint(1, 7)) for _ in range(3)]
        lo, hi = [float(v) for v in rng.randint(-44, 0, 3) / 8.0 - 1 / 16], [float(v) for v in rng.randint(1, 44, 3) / 8.0 + 1 / 16]
        names = ["nx", "ny", "nz", "xmin", "ymin", "zmin", "xmax", "ymax", "zmax"]
        kw = {nm: v for nm, v, g in zip(names, n + lo + hi, given) if g}
        wn = [v if g else 100 for v, g in zip(n, given)]
        wlo = [v if g else q[:, j].min() for j, (v, g) in enumerate(zip(lo, given[3:]))]
        whi = [v if g else q[:, j].max() for j, (v, g) in enumerate(zip(hi, given[6:]))]
        if any(b <= a for a, b in zip(wlo, whi)):
            continue
        inside = np.all((q >= wlo) & (q <= whi), axis=1)
        got = ck.real(grid3d, q, inten.reshape(1, 1, -1), **kw)
        ok = not is_raised(got) and got[1].shape == tuple(wn) and int(got[1].sum()) == inside.sum() and close(
            np.where(got[1] > 0, got[0] * got[1], 0).sum(), inten[inside].sum()) and close(got[3], np.array([wlo, whi, wn]).T)
        ck.expect(ok, "what is not given has its default, whatever else is given", q=q, given=kw, want=[wlo, whi, wn, int(inside.sum())],
                  got=got if is_raised(got) else [got[3], got[1].shape, int(got[1].sum())])
        ck.traced()
    # 4. bigger teams and grids than the cases above: many points, many voxels
    for k in range(ck.size(12, 60)):
        npts, n = 4000, [11, 13, 7]
        idx = np.stack([rng.randint(0, m, npts) for m in n], axis=1)
        inten = rng.randint(0, 50, npts).astype(float)
        want = np.zeros(n)
        np.add.at(want, tuple(idx.T), 1)
        ws = np.zeros(n)
        np.add.at(ws, tuple(idx.T), inten)
        threads(teams[k % 6])
        got = ck.real(grid3d, idx + 0.5, inten.reshape(4, 25, 40), nx=11, ny=13, nz=7, xmin=0, xmax=11, ymin=0, ymax=13,
                      zmin=0, zmax=7)
        ok = not is_raised(got) and same_ints(got[1], want) and close(np.where(want > 0, got[0] * want, 0), ws)
        ck.expect(ok, "large grids: every point in its voxel, whatever the team", threads=teams[k % 6], npts=npts)
        ck.traced()
    # 5. more voxels along one axis than a byte or a short counts, more points in a voxel than a short counts
    for ax, m in ((0, 300), (1, 1000), (2, 70000), (2, 1)):
        npts = 3000 if m > 1 else 70000
        n = [1, 1, 1]
        n[ax] = m
        idx = np.zeros((npts, 3), int)
        idx[:, ax] = rng.randint(0, m, npts)
        inten = rng.randint(0, 50, npts).astype(float)
        threads(teams[m % 6])
        got = ck.real(grid3d, idx + 0.5, inten.reshape(1, 1, -1), nx=n[0], ny=n[1], nz=n[2], xmin=0, xmax=n[0], ymin=0, ymax=n[1], zmin=0, zmax=n[2])
        want, ws = (np.bincount(idx[:, ax], v, minlength=m) for v in (None, inten))
        ok = not is_raised(got) and got[1].shape == tuple(n) and same_ints(got[1].reshape(-1), want) and close(
            np.where(want > 0, got[0].reshape(-1) * want, 0), ws)
        if ok:
            w = np.maximum(want, 1)
            var = np.bincount(idx[:, ax], inten**2, minlength=m) / w - (ws / w) ** 2
            ok = close(got[2].reshape(-1), np.sqrt(np.maximum(var, 0) / w), 1e-6, 1e-6)
        ck.expect(ok, "every point in its voxel, whatever the number of voxels and points", n=n, npts=npts, error=got if is_raised(got) else None)
        ck.traced()
    # an infinite intensity is a number
    got = ck.real(grid3d, np.array([[0.5, 0.5, 0.5], [0.5, 0.5, 0.5], [1.5, 0.5, 0.5]]), np.array([1.0, np.inf, 2.0]).reshape(1, 1, 3),
                  nx=2, ny=1, nz=1, xmin=0, xmax=2, ymin=0, ymax=1, zmin=0, zmax=1)
    ok = not is_raised(got) and list(got[1].reshape(-1)) == [2, 1] and list(got[0].reshape(-1)) == [np.inf, 2.0]
    ck.expect(ok, "an infinite intensity is counted", got=got)
    nonvacuous(resumed > 20, "no case in several sittings")
    # what is not a valid request is refused
    for q, img, m in [(np.zeros((4, 4)), np.zeros((1, 2, 2)), None), (np.zeros((2, 2, 3)), np.zeros((1, 2, 2)), None), (np.zeros((4, 2)), np.zeros((1, 2, 2)), None), (np.zeros((4, 3)), np.zeros((1, 2, 2)), np.ones((3, 2))),
                      (np.zeros((4, 3)), np.zeros((1, 2, 2)), np.ones((2, 2, 2))), (np.zeros((4, 3)), np.zeros((1, 2, 2)), np.ones(4)),
                      (np.zeros((12, 3)), np.zeros((2, 2, 3)), np.ones((2, 3, 2))), (np.zeros((12, 3)), np.zeros((2, 2, 3)), np.ones((3, 2)))]:
        got = ck.real(grid3d, q, img, binary_mask=m)
        ck.expect(is_raised(got, "ValueError"), "wrong shapes are refused", q=q.shape, got=got)
