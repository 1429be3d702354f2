"""G01: detector pixels to reciprocal space."""
import itertools

import numpy as np

from common import close, is_raised, nonvacuous, unit

MODES = {1: "theta", 2: "phi", 3: "cart", 4: "hkl"}
S2 = np.sqrt(2.0)


def rand_case(rng, nimg=None):
    ncol, nrow = [(1, 1), (2, 3), (3, 2), (1, 3), (3, 1), (2, 2), (3, 3)][rng.randint(7)]

    def offs(n):
        # n pixels one unit apart seen under -45, 0, 45 degrees, or two units apart
        if n == 3:
            return [-1, 0, 1], 1.0, 1.0
        if n == 2:
            return [([-1, 0], 1.0, 1.0), ([0, 1], 0.0, 1.0), ([-1, 1], 0.5, 2.0)][rng.randint(3)]
        return [([0], 0.0, 1.0), ([-1], 1.0, 1.0), ([1], -1.0, 1.0), ([1], -2.0, 0.5)][rng.randint(4)]

    coloff, ccen, cpix = offs(ncol)
    rowoff, rcen, rpix = offs(nrow)
    ang = [dict(zip(("del", "theta", "chi", "phi", "mu", "gam"), [int(v) for v in rng.randint(-8, 9, 6)]))
           for _ in range(nimg or rng.randint(1, 5))]
    while True:
        if rng.randint(5) == 0:  # axes that stand at right angles
            ubi = np.diag(rng.choice([-1, 1], 3))[rng.permutation(3)]
            break
        ubi = rng.randint(-2, 3, (3, 3))
        if abs(np.linalg.det(ubi)) > 0.5:
            break
    return dict(ang=ang, ncol=ncol, nrow=nrow, coloff=coloff, rowoff=rowoff, mode=int(rng.randint(1, 5)),
                ubi=ubi.tolist(), geo=[ccen, rcen, cpix, rpix])


def reference(ang, ncol, nrow, pix, cen, dist, lam, ubi, mode):
    """The conversion of Recip.tla for any angle, in floating point."""
    k = 2 * np.pi / lam
    out = []
    for d0, th, chi, phi, mu, g0 in np.radians(ang):
        r, c = np.mgrid[:nrow, :ncol]
        d = (d0 - np.arctan((r - cen[1]) * pix[1] / dist)).ravel()
        g = (g0 - np.arctan((c - cen[0]) * pix[0] / dist)).ravel()
        q = k * np.array([-np.sin(g) - np.sin(mu), np.cos(d - th) * np.cos(g) - np.cos(th) * np.cos(mu),
                          np.sin(d - th) * np.cos(g) + np.sin(th) * np.cos(mu)])
        if mode > 1:
            m = np.array([[np.cos(chi), 0, -np.sin(chi)],
                          [np.sin(phi) * np.sin(chi), np.cos(phi), np.sin(phi) * np.cos(chi)],
                          [np.cos(phi) * np.sin(chi), -np.sin(phi), np.cos(phi) * np.cos(chi)]])
            q = m @ q
        if mode == 4:
            q = ubi @ np.array([q[2], q[1], -q[0]])
        out.append(q.T)
    return np.concatenate(out)


def calibrated(ck, recip, rng):
    """The momentum transfer of the pixels of a detector held at right angles to the beam."""
    if recip.geo is None:
        return
    for _ in range(ck.size(12, 100)):
        rows, cols = (int(v) for v in rng.randint(1, 9, 2))
        p1, p2 = (float(v) for v in rng.choice([1e-4, 5e-5, 1.72e-4], 2))
        d, lam = float(rng.uniform(0.05, 3)), float(rng.uniform(0.5e-10, 3e-10))
        c1, c2 = (float(v) for v in rng.uniform(-1e-3, 2e-3, 2))
        got = ck.real(recip.calibrated_pixels_to_q, (rows, cols), dict(dist=d, poni1=c1, poni2=c2, pixel1=p1, pixel2=p2, wavelength=lam))
        r = np.hypot(((np.arange(rows) + 0.5) * p1 - c1)[:, None], (np.arange(cols) + 0.5) * p2 - c2)
        want = 4e-9 * np.pi / lam * np.sin(np.arctan2(r, d) / 2)
        ck.expect(not is_raised(got) and np.size(got) == rows * cols and close(np.reshape(got, (rows, cols)), want, 1e-4, 1e-9),
                  "calibrated_pixels_to_q: the momentum transfer of each pixel", shape=[rows, cols], pixel=[p1, p2], dist=d, poni=[c1, c2], got=got, want=want)
        ck.traced()


def run(ck):
    from skbeam.core import recip
    from skbeam.core.recip import gisaxs, hkl_to_q, process_to_q

    rng = ck.np_rng
    calibrated(ck, recip, rng)
    small = [rand_case(rng, nimg=3) for _ in range(ck.size(12, 60))]
    r = ck.tlc("Recip", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Elastic RotKeeps Independent\n"
               "CONSTANTS Cases <- CasesDef Ordered = FALSE\n", data=small, defs="CasesDef == Data", workers=4,
               name="Recip/schedules")
    nonvacuous(r.distinct > 12 * 8, "schedules")
    cases = [rand_case(rng) for _ in range(ck.size(400, 5000))]
    r = ck.tlc("Recip", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Elastic RotKeeps Independent Report\n"
               "CONSTANTS Cases <- CasesDef Ordered = TRUE\n", data=cases, defs="CasesDef == Data", workers=4, name="Recip/cases")
    nonvacuous(len(r.out) == len(cases), "one result per case")
    res = {e["case"]: e["q"] for e in r.out}
    for k, case in enumerate(cases):
        lam = float(rng.choice([0.5, 1.0, 1.54, 2 * np.pi]))
        dist = float(rng.choice([0.25, 1.0, 350.0]))
        ccen, rcen, cpix, rpix = case["geo"]
        ang = np.array([[a[n] * 45.0 for n in ("del", "theta", "chi", "phi", "mu", "gam")] for a in case["ang"]])
        ubi = np.array(case["ubi"], dtype=float)
        ub = np.linalg.inv(ubi)
        arg = ang if len(ang) > 1 or rng.randint(2) else ang[0]
        if rng.randint(3) == 0:
            arg = np.asarray(arg).astype(int)
        if rng.randint(4) == 0:
            arg = arg.tolist()
        want = np.array(res[k + 1], dtype=float).reshape(-1, 3, 3)
        want = (want[..., 0] + want[..., 1] * S2) / 2.0 ** want[..., 2] * 2 * np.pi / lam
        mode = MODES[case["mode"]]
        cs = dict(angles=arg, size=(case["ncol"], case["nrow"]), pix=(cpix * dist, rpix * dist), cen=(ccen, rcen),
                  dist=dist, wavelength=lam, ub=ub, mode=mode)
        call = (arg, (case["ncol"], case["nrow"]), (cpix * dist, rpix * dist), (ccen, rcen), dist, lam, ub)
        got = ck.real(process_to_q, *call, frame_mode=mode)
        ok = not is_raised(got) and close(got, want, rtol=1e-7, atol=1e-7 * (1 + np.abs(want).max()))
        ck.expect(ok, "Q of every pixel of every image", got=got, want=want, **cs)
        if mode == "hkl":
            got = ck.real(process_to_q, *call)
            ck.expect(not is_raised(got) and close(got, want, rtol=1e-7, atol=1e-7 * (1 + np.abs(want).max())),
                      "reciprocal lattice units are the default frame", got=got, want=want, **cs)
        u = unit(rng)
        n = ck.real(hkl_to_q, want * u)
        ck.expect(not is_raised(n) and close(n / u, np.sqrt((want**2).sum(axis=1))), "magnitude of Q", unit=u, got=n)
        kind = [np.int8, np.uint8, np.int16, np.int32, np.float32][rng.randint(5)]
        top = 10000 if kind is np.float32 else np.iinfo(kind).max
        h = rng.randint(-top if kind is not np.uint8 else 0, top, (5, 3)).astype(kind)
        n = ck.real(hkl_to_q, h)
        ck.expect(not is_raised(n) and close(n, np.sqrt((h.astype(float) ** 2).sum(axis=1)), 1e-5), "magnitude of Q, of any number type", hkl=h, got=n)
        ck.traced()
        ck.sample(angles=arg, mode=mode, q0=want[0])
    # any angle
    for k in range(ck.size(150, 3000)):
        ni, nc, nr = int(rng.randint(1, 6)), int(rng.randint(1, 7)), int(rng.randint(1, 7))
        if k % 25 == 0:
            # many images, wide or tall detectors
            ni, nc, nr = [(70, 3, 2), (300, 1, 1), (2, 40000, 1), (1, 1, 70000), (3, 150, 300)][k // 25 % 5]
        ang = rng.uniform(-180, 360, (ni, 6))
        ub = rng.uniform(-2, 2, (3, 3)) + 3 * np.eye(3)
        if k % 4 == 1:      # a cubic crystal, in any unit
            ub = np.linalg.qr(rng.normal(size=(3, 3)))[0] * [1.0, 1.0, 1.7, 1e-3][rng.randint(4)]
        pix, cen = tuple(rng.uniform(0.01, 0.3, 2)), tuple(rng.uniform(-3, 9, 2))
        dist, lam = float(rng.uniform(0.5, 400)), float(rng.uniform(0.2, 3))
        if k % 3 == 0:      # the centre far out, the detector close
            cen, dist = tuple(rng.uniform(-2000, 5000, 2)), float(rng.uniform(1, 20))
        # lengths on the detector, and the wavelength, in any unit
        u, v = unit(rng), unit(rng)
        dist, pix, lam = dist * u, (pix[0] * u, pix[1] * u), lam * v
        for mode in (1, 2, 3, 4):
            want = reference(ang, nc, nr, pix, cen, dist, lam, np.linalg.inv(ub), mode)
            got = ck.real(process_to_q, ang, (nc, nr), pix, cen, dist, lam, ub, frame_mode=MODES[mode])
            ck.expect(not is_raised(got) and close(got * v, want * v, rtol=1e-9, atol=1e-10 * (1 + np.abs(want * v).max())),
                      "Q of every pixel of every image", angles=ang, size=(nc, nr), pix=pix, cen=cen, dist=dist,
                      wavelength=lam, ub=ub, mode=MODES[mode], got=got, want=want)
        ck.traced()
    # a long scan that comes round again and again
    ang, n = rng.uniform(-180, 360, (7, 6)), ck.size(70007, 140007)
    for mode in ("theta", "hkl"):
        got = ck.real(process_to_q, np.tile(ang, (n // 7, 1)), (1, 1), (0.1, 0.2), (1.0, 2.0), 5.0, 1.0, np.diag([2.0, 3.0, 5.0]), frame_mode=mode)
        want = reference(ang, 1, 1, (0.1, 0.2), (1.0, 2.0), 5.0, 1.0, np.diag([1 / 2.0, 1 / 3.0, 1 / 5.0]), 1 if mode == "theta" else 4)
        ok = not is_raised(got) and np.shape(got) == (n // 7 * 7, 3) and close(got, np.tile(want, (n // 7, 1)), 1e-9, 1e-8)
        ck.expect(ok, "Q of every image of a long scan", angles=ang, images=n // 7 * 7, mode=mode, error=got if is_raised(got) else None)
        ck.traced()
    for bad in (np.zeros((2, 5)), np.zeros((1, 7)), np.zeros((2, 2, 6))):
        got = ck.real(process_to_q, bad, (2, 2), (1.0, 1.0), (0.0, 0.0), 1.0, 1.0, np.eye(3))
        ck.expect(is_raised(got, "ValueError"), "anything but six angles per image is refused", shape=bad.shape, got=got)
    got = ck.real(process_to_q, np.zeros((1, 6)), (2, 2), (1.0, 1.0), (0.0, 0.0), 1.0, 1.0, np.eye(3), frame_mode="nope")
    ck.expect(is_raised(got, "KeyError"), "an unknown frame is refused", got=got)
    # grazing incidence
    for k in range(ck.size(60, 1000)):
        inc, ref = rng.uniform(0, 8, 2), rng.uniform(0, 8, 2)
        pix, det = rng.uniform(20, 200, 2), tuple(int(v) for v in rng.randint(1, 8, 2))
        dist, lam, thi = rng.uniform(0.3, 6), rng.uniform(0.5, 2), float(rng.choice([0.0, 0.01, 0.2, -0.05]))
        if k % 3 == 0:
            dist = rng.uniform(2e-4, 3e-3)      # wide angles
        v = unit(rng)
        lam = lam * v
        if k == 0:
            ref = inc.copy()
        got = ck.real(gisaxs, tuple(inc), tuple(ref), tuple(pix), det, dist, lam, *([] if thi == 0 and k % 2 else [thi]))
        cs = dict(inc=inc, ref=ref, pix=pix, det=det, dist=dist, lam=lam, theta_i=thi)
        if is_raised(got):
            ck.fail("grazing incidence angles are computed", error=got, **cs)
            continue
        m = pix * 1e-6
        y, x = np.mgrid[:det[0], :det[1]]
        ai = np.arctan2((ref[1] - inc[1]) * m[1], dist) / 2
        tilt = np.arctan2((ref[0] - inc[0]) * m[0], (ref[1] - inc[1]) * m[1])
        af = np.arctan2((y - inc[1]) * m[1], dist) - ai
        tf = np.arctan2((x - inc[0]) * m[0], dist) / 2 - thi
        k0 = 2 * np.pi / lam
        qx = k0 * (np.cos(af) * np.cos(2 * tf) - np.cos(ai) * np.cos(2 * thi))
        y_ = np.cos(af) * np.sin(2 * tf) - np.cos(ai) * np.sin(2 * thi)
        z_ = np.sin(af) + np.sin(ai)
        qy = k0 * (z_ * np.sin(tilt) + y_ * np.cos(tilt))
        qz = k0 * (z_ * np.cos(tilt) - y_ * np.sin(tilt))
        want = dict(alpha_i=ai, theta_f=tf, alpha_f=af, tilt_angle=tilt, qx=qx, qy=qy, qz=qz, qr=np.hypot(qx, qy))
        for name, w in want.items():
            f = v if name.startswith("q") else 1
            ck.expect(close(np.asarray(getattr(got, name)) * f, w * f, rtol=1e-6, atol=1e-9), "grazing incidence: " + name,
                      got=getattr(got, name), want=w, **cs)
        ck.traced()
