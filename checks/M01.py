"""M01: masks and cleaned image streams."""
import itertools

import numpy as np

from common import is_raised, nonvacuous, same_ints


def run(ck):
    from skbeam.core import mask as mk

    rng = ck.np_rng
    # streams
    total = 0
    models = [(2, 2, "{0,1,2}", 1, "{0,1}"), (1, 4, "{0,3,5}", 5, "{1}"), (1, 3, "{0,3,5}", 4, "{0,1}")]
    if ck.thorough:
        models += [(2, 3, "{0,1,2}", 2, "{1}"), (3, 2, "{0,2}", 2, "{1}")]
    for npix, nf, vals, thr, mv in models:
        r = ck.tlc("Mask", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Monotone Exact Report\n"
                   "CONSTANTS NPix=%d NFrames=%d Vals=%s Thr=%d MaskVals=%s\n" % (npix, nf, vals, thr, mv))
        cases = r.out
        ck.rng.shuffle(cases)
        for e in cases[: ck.size(500, 20000)]:
            shape = [(npix, 1), (1, npix)][rng.randint(2)]
            frames = [np.array(f).reshape(shape) for f in e["frames"]]
            shift = float(rng.choice([0.0, 0.5, 100.0]))
            if shift:
                frames = [f + shift for f in frames]
            if not shift % 1 and rng.randint(2):
                # counts as detectors give them
                dt = [np.uint8, np.uint16, np.int16, np.uint32, np.int8][rng.randint(5)]
                frames, shift = [f.astype(dt) for f in frames], int(shift)
            start = np.array(e["start"]).reshape(shape)
            given = not start.all() or rng.randint(2)
            form = rng.randint(3)
            arg = [frames, np.array(frames), iter(frames)][form]
            gen = ck.real(mk.threshold, arg, thr + shift, start.copy() if given else None)
            got = gen if is_raised(gen) else ck.real(lambda: [np.array(m) for m in gen])
            ok = not is_raised(got) and len(got) == nf and all(
                same_ints(g, np.array(w).reshape(shape)) for g, w in zip(got, e["hist"]))
            ck.expect(ok, "threshold mask after each image", frames=frames, thr=thr + shift, start=start, got=got, want=e["hist"])
            # replaced frames
            bad = [b for b in e["bad"]]
            if rng.randint(2):
                bad = bad[::-1]
            stack = [f.astype(float) if rng.randint(2) else f for f in frames]
            src = [stack, iter(stack), tuple(stack)][rng.randint(3)]
            keep = [s.copy() for s in stack]
            gen = ck.real(mk.bad_to_nan_gen, src, bad if rng.randint(2) else set(bad))
            got = gen if is_raised(gen) else ck.real(lambda: list(gen))
            ok = not is_raised(got) and len(got) == nf and all(
                (np.shape(g) == f.shape and np.isnan(np.asarray(g, float)).all()) if n in bad else np.array_equal(g, f)
                for n, (g, f) in enumerate(zip(got, keep)))
            ok = ok and all(np.array_equal(a, b) for a, b in zip(stack, keep))
            ck.expect(ok, "bad images become NaN, the others pass unchanged", frames=frames, bad=bad, got=got)
            ck.traced()
            total += 1
        ck.sample(frames=e["frames"], hist=e["hist"], bad=e["bad"])
    nonvacuous(total > 300, "streams")
    # frames are passed on as they come: an endless stream is fine
    def endless():
        n = 0
        while True:
            yield np.full((2, 2), n)
            n += 1

    got = ck.real(lambda: list(itertools.islice(mk.bad_to_nan_gen(endless(), [1]), 3)))
    ck.expect(not is_raised(got) and [float(np.mean(g)) for g in (got[0], got[2])] == [0, 2] and np.isnan(got[1]).all(),
              "an endless stream is passed on frame by frame", got=got)
    got = ck.real(lambda: [m.copy() for m in itertools.islice(mk.threshold(endless(), 2), 4)])
    ck.expect(not is_raised(got) and [int(m.sum()) for m in got] == [4, 4, 0, 0], "an endless stream is thresholded frame by frame",
              got=got)
    # a long stream; counts near each other and large
    bad = sorted(set(int(v) for v in rng.randint(0, 1500, 40)))
    got = ck.real(lambda: [bool(np.isnan(g).all()) for g in mk.bad_to_nan_gen((np.full((1, 2), float(n)) for n in range(1500)), bad)])
    ck.expect(not is_raised(got) and [n for n, b in enumerate(got) if b] == bad, "bad images become NaN, the others pass unchanged (long)", bad=bad)
    bad, pix = [3, 40000, 65536, 65540, 69999], np.zeros((1, 1))
    got = ck.real(lambda: [n for n, g in enumerate(mk.bad_to_nan_gen((pix for _ in range(70000)), bad)) if g[0, 0] != 0])
    ck.expect(got == bad, "bad images become NaN, the others pass unchanged (long)", bad=bad, got=got)
    for base in (2**24, 2**40, 10**15):
        im = np.array([[base - 1, base, base + 1, 0]])
        for t in (im, im.astype(float)):
            got = ck.real(lambda: [m.copy() for m in mk.threshold([t], base)])
            ck.expect(not is_raised(got) and same_ints(got[0], [[1, 0, 0, 1]]), "threshold mask of large counts", image=t, got=got)
    # a pixel that is not a number has not reached the threshold
    for _ in range(20):
        ims = rng.randint(0, 6, (4, 3, 3)).astype(float)
        ims[rng.randint(0, 5, ims.shape) == 0] = [np.nan, np.inf, -np.inf][rng.randint(3)]
        got = ck.real(lambda: [m.copy() for m in mk.threshold(ims, 4)])
        want = [np.all([[not v >= 4 for v in im.ravel()] for im in ims[: t + 1]], axis=0).reshape(3, 3) for t in range(4)]
        ck.expect(not is_raised(got) and len(got) == 4 and all(same_ints(g, w) for g, w in zip(got, want)),
                  "threshold mask after each image", frames=ims, thr=4, got=got, want=want)
    # outliers
    cases = []
    for _ in range(ck.size(300, 4000)):
        nr, nc = int(rng.randint(1, 6)), int(rng.randint(1, 6))
        nb = int(rng.randint(1, 4))
        edges = sorted(int(v) for v in rng.choice(np.arange(0, 12), nb + 1, replace=False))
        n = nr * nc
        rr = [int(v) for v in rng.randint(edges[0], edges[-1] + 1, n)]
        for j in range(n):
            if rng.randint(4) == 0:
                rr[j] = int(rng.choice(edges))
        val = [int(v) for v in (rng.randint(0, 20, n) if rng.randint(3) else rng.choice([5, 5, 5, 5, 18], n))]
        an = [int(v) for v in rng.randint(1, 7, nb)]
        kind = ["scalar", "tuple", "array"][rng.randint(3)]
        if kind == "scalar" or nb == 1:
            an = [an[0]] * nb
        elif kind == "tuple":
            an = [2 + j for j in range(nb)] if rng.randint(4) else [an[0]] * nb
        cases.append(dict(nr=nr, nc=nc, edges=edges, r=rr, val=val, an=an, ad=int(rng.choice([1, 2])), kind=kind,
                          m=[bool(v) for v in rng.randint(0, 4, n)] if rng.randint(2) else [True] * n))
        cases[-1]["m"][0] = True          # an image with no pixel left has no statistics
    r = ck.tlc("Outlier", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Sound Survivor Report\n"
               "CONSTANTS Cases <- CasesDef\n", data=cases, defs="CasesDef == Data", workers=8)
    res = {e["case"]: e["keep"] for e in r.out}
    nonvacuous(len(res) == len(cases), "outliers")
    outs = 0
    for k, cs in enumerate(cases):
        shape = (cs["nr"], cs["nc"])
        img = np.array(cs["val"], float).reshape(shape)
        how = rng.randint(5)
        if how == 0:
            img = img.astype(int)
        elif how == 1:
            img = img * 2.0 ** int(rng.choice([-30, -12, 20, 40]))
        elif how == 2:
            img = img.astype([np.uint8, np.int16, np.uint16, np.uint32][rng.randint(4)])
        elif how == 3:
            img = img + 2.0 ** 26
        rad = np.array(cs["r"], float).reshape(shape)
        al = np.array(cs["an"]) / float(cs["ad"])
        alpha = float(al[0]) if cs["kind"] == "scalar" else (float(al[0]), float(al[-1])) if cs["kind"] == "tuple" else al
        m = np.array(cs["m"])
        mask = None if m.all() and rng.randint(2) else (m if rng.randint(2) else m.reshape(shape))
        if mask is not None:
            mask = mask.astype([bool, bool, int, float, np.uint8][rng.randint(5)])
            if mask.dtype == np.uint8 and rng.randint(2):
                mask = mask * np.uint8(255)
        keep = (img.copy(), None if mask is None else mask.copy())
        got = ck.real(mk.binned_outlier, img, rad, alpha, np.array(cs["edges"], float), mask=mask)
        ok = not is_raised(got) and got.shape == shape and got.dtype == bool and all(
            w == "edge" or bool(g) == (w == "in") for g, w in zip(np.ravel(got), res[k + 1]))
        ck.expect(ok, "outliers of each bin are masked, nothing else", case=cs, got=got, want=res[k + 1])
        ck.expect(np.array_equal(img, keep[0]) and (mask is None or np.array_equal(mask, keep[1])), "inputs are left alone", case=cs)
        outs += sum(1 for a, b in zip(res[k + 1], cs["m"]) if b and a == "out")
        ck.traced()
    nonvacuous(outs > 20, "no outliers")
    # margins: a pixel is kept iff it is at least edge_size away from every side
    for nr in range(1, 8):
        for nc in range(1, 8):
            for e in range(0, 6):
                rr, cc = np.mgrid[:nr, :nc]
                want = (rr >= e) & (rr < nr - e) & (cc >= e) & (cc < nc - e)
                got = ck.real(mk.margin, (nr, nc), e)
                ck.expect(not is_raised(got) and same_ints(got, want), "margin masks the edge pixels only", shape=(nr, nc), edge=e,
                          got=got, want=want)
    ck.traced(7 * 7 * 6)
