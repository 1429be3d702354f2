"""F02: sample-detector distance and beam centre from powder rings."""
import numpy as np

from common import close, is_raised, nonvacuous

STD = ["Si", "CeO2", "Al2O3", "LaB6", "Ni"]


def gen(rng, expected):
    n, most = int(rng.randint(1, 10)), int(rng.randint(1, 11))
    if rng.randint(6) == 0:
        n, most = int(rng.randint(10, 36)), int(rng.randint(10, 40))
    return dict(heights=[int(v) for v in rng.randint(1, 11, n)], expected=expected, most=most,
                permille=int(rng.choice([0, 50, 123, 287, 455, 620, 890])))


def run(ck):
    from skbeam.core import calibration as ca

    rng = ck.np_rng
    cases = []
    names = [s for s in STD if s in ca.calibration_standards]
    nonvacuous(len(names) >= 3, "standards")
    for _ in range(ck.size(350, 4000)):
        name = names[rng.randint(len(names))]
        cs = gen(rng, len(ca.calibration_standards[name]))
        cs["name"] = name
        cases.append(cs)
    offs = "{-3, -2, 0, 2, 3}" if ck.thorough else "{-3, 0, 2}"
    r = ck.tlc("Calib", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Ordered Report\nCONSTANTS Cases <- CasesDef\n  Offsets <- OffDef\n",
               data=cases, defs="CasesDef == Data\nOffDef == " + offs)
    dist = {e["case"]: e for e in r.out if "case" in e}
    nonvacuous(len(dist) == len(cases), "an answer per case")
    used = 0
    for i, a in enumerate(cases):
        e = dist[i + 1]
        if e["near"]:
            continue
        used += 1
        cal = list(ca.calibration_standards[a["name"]])
        q = np.array([x.q for x in cal])
        wl = float(rng.uniform(0.1, 0.9)) * 2 * np.sin(np.pi / 8) / (q.max() / (2 * np.pi))
        if rng.randint(3) == 0 and e["pairs"]:
            # reflections beyond those used may be out of reach
            wl = wl * q.max() / q[max(k for f, k in e["pairs"]) - 1]
        with np.errstate(invalid="ignore"):
            tan = np.tan(2 * np.arcsin(q * wl / (4 * np.pi)))
        step = float(rng.choice([0.025, 0.1, 0.01]))
        w = int(rng.randint(5, 9))
        sig = step * w / 4.2
        n = len(a["heights"])
        pos = (np.cumsum(rng.uniform(26, 60, n)) + 10) * sig
        x = step * np.arange(int((pos[-1] + 25 * sig) / step))
        y = sum(h * np.exp(-((x - p) ** 2) / (2 * sig**2)) for h, p in zip(a["heights"], pos)) * float(rng.choice([1, 10, 1000.0, 1e-7])) + 1e-290
        if rng.randint(3) == 0:
            # a ripple finer than the window is no ring
            y = y + y.max() * 1e-9 * (np.arange(len(y)) % int(rng.randint(2, w)) == 0)
        d = np.array([pos[f - 1] / tan[k - 1] for f, k in e["pairs"]])
        got = ck.real(ca.estimate_d_blind, a["name"], wl, x, y, w, a["most"], a["permille"] / 1000.0)
        ok = not is_raised(got) and len(got) == 2 and close(got[0], d.mean(), rtol=1e-4) and close(got[1], d.std(), rtol=1e-3, atol=1e-3 * d.mean())
        ck.expect(ok, "distance and spread from the rings found, k-th ring for k-th reflection", case=a, wavelength=wl, rings=pos, step=step, window=w, got=got, want=[d.mean(), d.std()])
        ck.traced()
        ck.sample(case=a, pairs=e["pairs"])
    nonvacuous(used > 60, "distances: only %d" % used)
    ck.expect(sorted(ca.estimate_d_blind.name) == sorted(ca.calibration_standards), "the standards on offer are listed")
    starts = [e["start"] for e in r.out if "start" in e]
    for s in starts:
        for _ in range(ck.size(5, 20)):
            centre(ck, ca, rng, s)
    found(ck, rng)


def centre(ck, ca, rng, start):
    px = [(1, 1), (0.5, 0.5), (1, 2), (2, 1), (0.1, 0.15)][rng.randint(5)]
    shape = (int(rng.randint(240, 320)), int(rng.randint(240, 320)))
    cen = np.array([shape[0] / 2.0 + rng.uniform(-5, 5), shape[1] / 2.0 + rng.uniform(-5, 5)])
    big = float(max(px))
    yy, xx = np.mgrid[:shape[0], :shape[1]]
    rad = np.hypot((yy - cen[0]) * px[0], (xx - cen[1]) * px[1])
    rmax = min(shape[0] * px[0], shape[1] * px[1]) / 2 - 10 * big
    w = 0.05 * rmax
    img = sum(1000 * np.exp(-(((rad - f * rmax) / w) ** 2)) for f in (0.45, 0.65, 0.85))
    ang = np.arctan2((yy - cen[0]) * px[0], (xx - cen[1]) * px[1])
    extra = rng.randint(5)
    if extra == 1:                            # the brightness of a ring goes round
        img = sum(1000 * (1 + 0.3 * np.cos(ang * k - ph)) * np.exp(-(((rad - f * rmax) / w) ** 2))
                  for f, k, ph in zip((0.45, 0.65, 0.85), rng.randint(1, 4, 3), rng.uniform(0, 6, 3)))
    elif extra == 2:                          # a weak inner ring, on some sides only, is under the threshold
        img = img + 60 * (1 + np.cos(ang)) * np.exp(-(((rad - 0.28 * rmax) / w) ** 2))
    elif extra == 3:                          # the outer ring is missing on one side
        img = sum(1000 * np.exp(-(((rad - f * rmax) / w) ** 2)) for f in (0.45, 0.65)) + 1000 * (np.cos(ang - rng.uniform(0, 6)) > -0.5) * np.exp(
            -(((rad - 0.85 * rmax) / w) ** 2)) + 5
    elif extra == 4:                          # few counts
        img = img * float(rng.choice([0.012, 1e-4, 1e-9]))
    est = cen + np.array(start) * big / np.array(px)
    kw = dict(phi_steps=int(rng.randint(16, 30)), nx=int(0.8 * rmax / big), min_x=0.2 * rmax, max_x=rmax, window_size=4, thresh=0.08 if extra == 1 else 0.2, max_peaks=int(rng.randint(1, 4)))
    if extra in (0, 4) and px[0] == px[1]:
        # the bins left to the function
        kw["window_size"] = 30
        for k in ("nx",) if rng.randint(2) else ("nx", "min_x", "max_x"):
            del kw[k]
    if rng.randint(2) and extra != 4:
        img = np.rint(img * 1e5).astype(int)
    got = est
    for k in (1, 2):
        got = ck.real(ca.refine_center, img, tuple(got), px, **kw)
        ok = not is_raised(got) and len(got) == 2 and np.all(np.abs(np.array(got) - cen) * px / big < 0.7)
        if not ck.expect(ok, "a refined centre is the centre of the rings", center=cen, estimate=est, pixel_size=px, shape=shape, extra=extra, kw=kw, refinement=k, got=got):
            return
    ck.traced()


def found(ck, rng):
    """Centre and radii of rings without an estimate."""
    from skbeam.core.roi import auto_find_center_rings

    r = ck.tlc("RingPick", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Once Report\nCONSTANTS Radii = {14, 24, 36, 50}\n")
    nonvacuous(len(r.out) >= 30, "rings")
    for e in r.out * ck.size(1, 6):
        cen = np.array([rng.uniform(58, 70), rng.uniform(58, 100)])
        shape = (int(cen[0] + rng.uniform(55, 70)), int(cen[1] + rng.uniform(55, 90)))
        yy, xx = np.mgrid[:shape[0], :shape[1]]
        n = np.searchsorted(e["rings"], np.hypot(yy - cen[0], xx - cen[1]))
        img = np.where(n % 2 == 0, 0.05, 0.6) if rng.randint(2) else 0.95 - 0.225 * n
        kind = rng.randint(3)
        if kind == 1:
            img = np.rint(img * 255).astype(np.uint8)
        elif kind == 2:
            img = np.repeat(img[:, :, None], 3, axis=2)
        keep = img.copy()
        got = ck.real(auto_find_center_rings, img, sigma=1, no_rings=len(e["found"]))
        case = dict(center=cen, rings=e["rings"], shape=shape, kind=int(kind))
        ok = not is_raised(got) and len(got) == 3 and len(got[0]) == 2 and abs(got[0][0] - cen[1]) < 1.6 and abs(got[0][1] - cen[0]) < 1.6
        if not ck.expect(ok, "the centre of the rings is found, column first", got=got[0] if not is_raised(got) else got, **case):
            continue
        ck.expect(close(got[2], e["found"], 0, 1.2), "the rings are found from the largest on", got=got[2], want=e["found"], **case)
        paint = np.asarray(got[1])
        ok = paint.shape == shape
        for k, rad in enumerate(e["found"]):
            at = np.argwhere(paint == k + 1) if ok else np.zeros((0, 2))
            d = np.hypot(at[:, 0] - cen[0], at[:, 1] - cen[1])
            ok = ok and len(at) > 4 * rad and bool(np.all(np.abs(d - rad) < 3.3))
        ok = ok and set(np.unique(paint[paint >= 1])) == set(range(1, len(e["found"]) + 1))
        ck.expect(ok, "each ring is painted with its number", got=[[k, int((paint == k).sum())] for k in range(1, 6)], **case)
        ck.expect(np.array_equal(img, keep), "the image is left alone", **case)
        ck.traced()
