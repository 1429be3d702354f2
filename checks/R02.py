"""R02: quantities computed from images and label arrays."""
import numpy as np

from common import close, is_raised, nonvacuous, same_ints, unit


def rand_case(rng):
    nr, nc = int(rng.randint(1, 7)), int(rng.randint(1, 7))
    ni = int(rng.randint(1, 4))
    pool = [[0, 1, 2], [0, 3, 7], [1], [2, 5], [0, 0, 0, 1], [0]][rng.randint(6)]
    lab = [int(v) for v in rng.choice(pool, nr * nc)]
    nx = int(rng.randint(1, 6))
    step = int(rng.randint(1, 5))
    lo = int(rng.choice([0, 0, 1, 3]))
    dt = ["int64", "int32", "float64", "uint8", "int8", "uint16", "int16", "float32"][rng.randint(8)]
    lo_v, hi_v = {"uint8": (0, 256), "int8": (-128, 128), "uint16": (0, 65536), "int16": (-32768, 32768)}.get(dt, (-3, 30))
    return dict(nr=nr, nc=nc, lab=lab, imgs=[[int(v) for v in rng.randint(lo_v, hi_v, nr * nc)] for _ in range(ni)], dt=dt,
                cr=int(rng.randint(-2, 2 * nr + 2)), cc=int(rng.randint(-2, 2 * nc + 2)),
                ph=int(rng.choice([1, 1, 2])), pw=int(rng.choice([1, 1, 3])),
                edges=[lo + step * j for j in range(nx + 1)], masked=bool(rng.randint(2)),
                use=[bool(v) for v in rng.randint(0, 3, nr * nc)], thr=int(rng.choice([0, 0, 1, 2])))


def run(ck):
    from skbeam.core import roi
    from skbeam.core.utils import bin_1D, radial_grid

    rng = ck.np_rng
    cases = [rand_case(rng) for _ in range(ck.size(350, 4000))]
    for cs in cases:
        if not cs["masked"]:
            cs["use"] = [True] * len(cs["use"])
    r = ck.tlc("RoiStats", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Booked OneRing Raster Report\n"
               "CONSTANTS Cases <- CasesDef\n", data=cases, defs="CasesDef == Data", workers=8)
    res = {e["case"]: e for e in r.out}
    nonvacuous(len(res) == len(cases), "one result per case")
    full = 0
    for k, cs in enumerate(cases):
        w = res[k + 1]
        shape = (cs["nr"], cs["nc"])
        lab = np.array(cs["lab"]).reshape(shape)
        imgs = np.array(cs["imgs"]).reshape((-1,) + shape).astype(cs["dt"])
        ids = sorted(set(cs["lab"]) - {0})
        if rng.randint(4) == 0:
            lab = np.asfortranarray(lab)
        per = [{i: [v for l, v in img if l == i] for i in ids} for img in w["pix"]]
        # mean intensity of each region, image by image
        if ids:
            want = np.array([[np.mean(q[i]) for i in ids] for q in per])
            arg = imgs if rng.randint(2) else list(imgs)
            got = ck.real(roi.mean_intensity, arg, lab)
            ok = not is_raised(got) and close(got[0], want) and list(got[1]) == ids
            ck.expect(ok, "mean intensity of each region in each image", case=cs, got=got, want=want)
            pick = [i for i in ids if rng.randint(2)] or [ids[-1]]
            if rng.randint(2):
                pick = pick[::-1]
            index = pick if len(pick) > 1 or rng.randint(2) else pick[0]
            got = ck.real(roi.mean_intensity, imgs, lab, index=index)
            want = np.array([[np.mean(q[i]) for i in pick] for q in per])
            ck.expect(not is_raised(got) and close(got[0], want) and list(got[1]) == pick,
                      "mean intensity of the regions asked for", case=cs, index=index, got=got, want=want)
            if rng.randint(4) == 0:
                # a region without pixels has no mean
                got = ck.real(roi.mean_intensity, imgs, lab, index=[ids[0], max(ids) + 3])
                want = np.array([[np.mean(q[ids[0]]), np.nan] for q in per])
                ck.expect(not is_raised(got) and close(got[0], want), "mean intensity of the regions asked for", case=cs,
                          index=[ids[0], max(ids) + 3], got=got, want=want)
            full += 0 not in cs["lab"]
        # values of the pixels of each region, in raster order
        for img, q in zip(imgs, per):
            got = ck.real(roi.roi_pixel_values, img, lab)
            ok = not is_raised(got) and list(got[1]) == list(range(1, max(cs["lab"]) + 1)) and len(got[0]) == len(got[1]) and all(
                same_ints(a, q.get(i, [])) for i, a in zip(got[1], got[0]))
            ck.expect(ok, "pixel values of each region", case=cs, got=got, want=q)
            if ids:
                got = ck.real(roi.roi_pixel_values, img, lab, ids[::-1])
                ck.expect(not is_raised(got) and all(same_ints(a, q[i]) for i, a in zip(ids[::-1], got[0])),
                          "pixel values of the regions asked for", case=cs, got=got, want=q)
        for i in ids:
            got = ck.real(roi.kymograph, imgs, lab, i)
            ck.expect(not is_raised(got) and same_ints(got, [q[i] for q in per]), "kymograph: one row of pixels per image",
                      case=cs, roi=i, got=got)
            if len(imgs) > 1:  # images of several number types
                mix = [np.asarray(im).astype(float) + (0.5 if k else 0) if k else np.asarray(im) for k, im in enumerate(imgs)]
                got = ck.real(roi.kymograph, mix, lab, i)
                ck.expect(not is_raised(got) and close(got, [np.array(q[i]) + (0.5 if k else 0) for k, q in enumerate(per)]), "kymograph of images of several types",
                          case=cs, roi=i, got=got)
        if ids:
            got = ck.real(roi.roi_max_counts, (imgs,), lab)
            ck.expect(not is_raised(got) and got == w["maxc"], "brightest pixel in any region", case=cs, got=got, want=w["maxc"])
            cut = rng.randint(0, len(imgs) + 1)
            got = ck.real(roi.roi_max_counts, (imgs[:cut], imgs[cut:]), lab)
            ck.expect(not is_raised(got) and got == w["maxc"], "brightest pixel over several sets", case=cs, got=got)
        got = ck.real(roi.extract_label_indices, lab)
        ok = not is_raised(got) and same_ints(got[1], [q for _, q in w["lst"]]) and same_ints(got[0], [l for l, _ in w["lst"]])
        ck.expect(ok, "label and position of each labelled pixel in raster order", case=cs, got=got, want=w["lst"])
        # radial average
        center = (cs["cr"] / 2.0, cs["cc"] / 2.0)
        e = np.array(cs["edges"]) / 2.0
        kw = dict(nx=len(e) - 1, min_x=e[0], max_x=e[-1])
        if cs["ph"] != 1 or cs["pw"] != 1:
            kw["pixel_size"] = (cs["ph"], cs["pw"])
        if cs["masked"]:
            m = np.array(cs["use"]).reshape(shape)
            kw["mask"] = m.astype(int) if rng.randint(2) else m
        if cs["thr"]:
            kw["threshold"] = cs["thr"]
        rows = [(c0, s / n) for c0, (s, n) in zip((e[1:] + e[:-1]) / 2, w["ring"]) if n > cs["thr"]]
        got = ck.real(roi.circular_average, imgs[0], center, **kw)
        ok = not is_raised(got) and close(got[0], [a for a, _ in rows]) and close(got[1], [b for _, b in rows])
        ck.expect(ok, "circular average over each ring of pixels", case=cs, got=got, want=rows)
        # in other units of intensity and of length
        u, v = unit(rng), unit(rng)
        ps = (cs["ph"] * v, cs["pw"] * v)
        big = imgs.astype(float) * u
        got = ck.real(roi.circular_average, big[0], center, **dict(kw, min_x=e[0] * v, max_x=e[-1] * v, pixel_size=ps))
        ok = not is_raised(got) and close(np.asarray(got[0]) / v, [a for a, _ in rows]) and close(np.asarray(got[1]) / u, [b for _, b in rows])
        ck.expect(ok, "circular average in other units", case=cs, units=[u, v], got=got, want=rows)
        if ids:
            got = ck.real(roi.mean_intensity, big, lab)
            want = np.array([[np.mean(q[i]) for i in ids] for q in per])
            ck.expect(not is_raised(got) and close(np.asarray(got[0]) / u, want), "mean intensity in other units", case=cs, units=u, got=got, want=want)
            got = ck.real(roi.roi_max_counts, (big,), lab)
            ck.expect(not is_raised(got) and got == w["maxc"] * u, "brightest pixel in other units", case=cs, units=u, got=got)
            got = ck.real(roi.kymograph, big, lab, ids[0])
            ck.expect(not is_raised(got) and close(np.asarray(got) / u, [q[ids[0]] for q in per]), "kymograph in other units", case=cs, units=u, got=got)
        # the same bookkeeping one level below
        rad = radial_grid(center, shape, (cs["ph"], cs["pw"])).ravel()
        use = np.array(cs["use"])
        got = ck.real(bin_1D, rad[use], imgs[0].ravel()[use], len(e) - 1, e[0], e[-1])
        ok = not is_raised(got) and close(got[0], e) and close(got[1], [s for s, _ in w["ring"]]) and same_ints(
            got[2], [n for _, n in w["ring"]])
        ck.expect(ok, "sum and count of each bin", case=cs, got=got, want=w["ring"])
        ck.traced()
        ck.sample(shape=shape, lab=cs["lab"], ring=w["ring"], maxc=w["maxc"])
    nonvacuous(full > 3, "no label array without background")
    # default range: from the nearest to the farthest, nothing lost
    for _ in range(ck.size(200, 4000)):
        npts = int(rng.randint(2, 40))
        x = rng.rand(npts) * 10.0 ** rng.randint(-2, 4) + rng.uniform(-5, 5)
        y = rng.randint(-5, 20, npts) if rng.randint(2) else rng.uniform(-5, 20, npts)
        nx = int(rng.randint(1, 12))
        got = ck.real(bin_1D, x, y, nx)
        ok = not is_raised(got) and got[2].sum() == npts and close(got[1].sum(), y.sum()) and len(got[0]) == nx + 1 and close(
            got[0], np.linspace(x.min(), x.max(), nx + 1))
        ck.expect(ok, "default bins hold every point", x=x, y=y, nx=nx, got=got)
        x = rng.randint(-4, 9, npts)
        if x.max() > x.min():
            got = ck.real(bin_1D, x, y)
            ok = not is_raised(got) and got[2].sum() == npts and close(got[0], np.arange(x.min(), x.max() + 1))
            ck.expect(ok, "without a number of bins they are one unit wide", x=x, y=y, got=got)
        ck.traced()
    # larger: many regions and pixels, values that need full precision
    for t in range(ck.size(4, 20)):
        n, sh = [(12, (50, 41)), (300, (60, 70)), (70000, (30, 31)), (3, (270, 280))][t % 4]
        lab = rng.randint(0, n + 1, sh)
        if n == 70000:
            lab[rng.rand(*sh) < 0.9] = 0
        ids = np.unique(lab[lab > 0])
        imgs = rng.randint(0, 2**40, (3,) + sh)
        if t % 2:
            imgs = imgs / 3.0
        got = ck.real(roi.mean_intensity, imgs, lab)
        pos = [np.nonzero(lab.ravel() == i)[0] for i in ids]
        want = np.array([[im.ravel()[q].mean() for q in pos] for im in imgs])
        ck.expect(not is_raised(got) and close(got[0], want, rtol=1e-11) and list(got[1]) == list(ids),
                  "mean intensity of each region in each image (large)", n=n, shape=sh, error=got if is_raised(got) else None)
        got = ck.real(roi.roi_max_counts, (imgs,), lab)
        ck.expect(not is_raised(got) and got == imgs[:, lab > 0].max(), "brightest pixel in any region", n=n, shape=sh, got=got)
        got = ck.real(roi.extract_label_indices, lab)
        q = np.nonzero(lab.ravel() > 0)[0]
        # the labels come back as they are or numbered in order
        ok = not is_raised(got) and same_ints(got[1], q) and (
            same_ints(got[0], lab.ravel()[q]) or same_ints(got[0], np.searchsorted(ids, lab.ravel()[q]) + 1))
        ck.expect(ok, "label and position of each labelled pixel in raster order (large)", n=n, shape=sh)
        if n <= 300:
            got = ck.real(roi.kymograph, imgs, lab, int(ids[-1]))
            ck.expect(not is_raised(got) and close(got, [im.ravel()[pos[-1]] for im in imgs], rtol=1e-12), "kymograph (large)", n=n, shape=sh)
            got = ck.real(roi.roi_pixel_values, imgs[0], lab)
            ok = not is_raised(got) and len(got[0]) == ids[-1] and all(close(got[0][i - 1], imgs[0].ravel()[q], rtol=1e-12) for i, q in zip(ids, pos))
            ck.expect(ok, "pixel values of each region (large)", n=n, shape=sh)
        ck.traced()
    img = np.ones((3, 4))
    got = ck.real(roi.roi_pixel_values, img, np.zeros((4, 3), int))
    ck.expect(is_raised(got, "ValueError"), "shapes have to agree", got=got)
    got = ck.real(roi.mean_intensity, img[None], np.zeros((4, 3), int))
    ck.expect(is_raised(got, "ValueError"), "shapes have to agree", got=got)
    # defaults of the radial average: 100 bins from the nearest to the farthest pixel, every pixel in one
    img = rng.randint(1, 50, (40, 30)).astype(float)
    center = (19.3, 14.8)
    rad = np.sqrt(
        (np.arange(40)[:, None] - center[0]) ** 2 + (np.arange(30)[None, :] - center[1]) ** 2)
    e = np.linspace(rad.min(), rad.max(), 101)
    which = np.clip(np.searchsorted(e, rad.ravel(), side="right") - 1, 0, 99)
    n = np.bincount(which, minlength=100)
    tot = np.bincount(which, img.ravel(), 100)
    got = ck.real(roi.circular_average, img, center)
    ck.expect(not is_raised(got) and close(got[0], ((e[1:] + e[:-1]) / 2)[n > 0]) and close(got[1], (tot / np.maximum(n, 1))[n > 0]),
              "circular average: 100 bins unless asked otherwise", got=got)
    for thr in (3, 8, 13, 20, 10 ** 6):
        got = ck.real(roi.circular_average, img, center, thr)
        ck.expect(not is_raised(got) and close(got[0], ((e[1:] + e[:-1]) / 2)[n > thr]) and close(got[1], (tot / np.maximum(n, 1))[n > thr]),
                  "circular average: rings of more pixels than the threshold", threshold=thr, got=got)
