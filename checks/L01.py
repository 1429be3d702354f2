"""L01: peak profiles and photon counting distributions."""
import math

import numpy as np

from common import close, is_raised, nonvacuous, rat

S2 = math.sqrt(2)
S2PI = math.sqrt(2 * math.pi)


def peak(rng):
    q = int(rng.choice([1, 2, 4, 10]))
    s = int(rng.randint(1, 30))
    c = int(rng.randint(-50, 100))
    if rng.randint(3) == 0:        # near the end of what one byte holds
        q, s, c = 1, int(rng.randint(1, 4)), int(rng.choice([105, 230, 12]))
    off = set(int(v) for v in rng.randint(-6 * s, 6 * s + 1, 9)) | {0, s, -s, 1, -1}
    x = [c + o for o in off]
    if rng.randint(2):
        x = sorted(x)
    return dict(op="peak", q=q, s=s, c=c, x=x, gn=int(rng.randint(1, 13)), gd=4)


def count(rng):
    if rng.randint(3) == 0:
        kd = int(rng.choice([1, 2, 4]))
        return dict(op="count", kn=int(rng.randint(1, 12)), kd=kd, mn=0, md=1, n=6 if kd < 4 else 5)
    if rng.randint(2):
        m = int(rng.randint(1, 5))
        return dict(op="count", kn=int(rng.randint(1, 7)), kd=1, mn=m, md=1, n=5)
    return dict(op="count", kn=int(rng.randint(1, 9)), kd=int(rng.choice([2, 4])), mn=int(rng.randint(1, 8)), md=2, n=3)


def run(ck):
    from skbeam.core.fitting import lineshapes as ls

    rng = ck.np_rng
    decay(ck, rng)
    n = ck.size(150, 1500)
    cases = [peak(rng) for _ in range(n)] + [count(rng) for _ in range(n)]
    r = ck.tlc("Lines", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Symmetric Half Centre Closed Falls Rise Report\nCONSTANTS Cases <- CasesDef\n",
               data=cases, defs="CasesDef == Data", workers=4)
    rows = {}
    for e in r.out:
        rows.setdefault(e["case"], {})[e["k"]] = e
    nonvacuous(len(rows) == len(cases), "every case has answers")
    for i, a in enumerate(cases, 1):
        ans = [rows[i][j] for j in range(len(rows[i]))]
        nonvacuous(len(ans) == (len(a["x"]) if a["op"] == "peak" else a["n"] + 1), "an answer per step")
        (profiles if a["op"] == "peak" else photons)(ck, ls, rng, a, ans)
    areas(ck, ls, rng)
    large(ck, ls, rng)
    channels(ck, ls, rng)


def voigt_ref(u, sigma, gamma):
    """The convolution of a Gaussian with a Lorentzian, by quadrature."""
    w = sigma * np.linspace(-9, 9, 4001)
    dw = w[1] - w[0]
    g = np.exp(-w * w / (2 * sigma * sigma)) / (S2PI * sigma)
    lo = gamma / math.pi / (gamma**2 + (u - w) ** 2)
    return float(np.sum(g * lo) * dw)


def dresses(rng, x, q):
    """The positions as the caller may have them."""
    xs = np.array(x, dtype=float) / q
    out = [xs]
    if q == 1:
        out.append(np.array(x))
        for t in (np.uint8, np.int8, np.uint16, np.int16, np.int32, np.uint64):
            if np.iinfo(t).min <= min(x) and max(x) <= np.iinfo(t).max:
                out.append(np.array(x, dtype=t))
    if len(x) % 2 == 0:
        out.append(xs.reshape(2, -1))
        out.append(np.repeat(xs, 2)[::2])
    return out[rng.randint(len(out))]


def profiles(ck, ls, rng, a, ans):
    q = a["q"]
    c, s = a["c"] / q, a["s"] / q
    if q == 1 and rng.randint(2):
        c, s = a["c"], a["s"]
    area = float(rng.choice([1, 2.5, 1000])) if rng.randint(3) else int(rng.randint(1, 9))
    frac = float(rng.randint(0, 5)) / 4
    gam, pe = a["gn"] / a["gd"], float(rng.randint(1, 30)) / 2
    x = dresses(rng, a["x"], q)
    keep = np.array(x, copy=True)
    lor = np.array([rat(e["lor"]) for e in ans])
    ex = np.array([rat(e["gau"]) for e in ans])
    arg = np.array([rat(e["arg"]) for e in ans])
    fall = np.array([rat(e["fall"]) for e in ans])
    sf = float(s)
    g = area / (S2PI * sf) * np.exp(-ex)
    lz = area / (math.pi * sf) * lor
    l2 = area / (math.pi * sf) * lor**2
    erfc = np.array([math.erfc(v / S2) for v in arg])
    tail = area * np.exp(fall) * np.array([math.erfc(v / S2 + 1 / (gam * S2)) for v in arg]) / (2 * gam * sf * math.exp(-0.5 / gam**2))
    info = dict(case=a, area=area)
    top = area / sf

    def same(name, got, want, text, rtol=1e-9, atol=1e-11):
        ck.expect(not is_raised(got) and close(got, np.reshape(want, keep.shape), rtol, atol * top), name + ": " + text, got=got, want=want, **info)

    same("gaussian", ck.real(ls.gaussian, x, area, c, s), g, "area, centre and standard deviation")
    same("lorentzian", ck.real(ls.lorentzian, x, area, c, s), lz, "area, centre and half width")
    got = ck.real(ls.lorentzian2, x, area, c, s)
    # the shape; what its area is, is judged below
    ok = not is_raised(got) and np.shape(got) == keep.shape and np.all(np.isfinite(np.asarray(got, dtype=float)))
    if ck.expect(ok, "lorentzian2: an answer", got=got, **info):
        flat = np.ravel(got)
        i0 = a["x"].index(a["c"])
        ck.expect(close(flat / flat[i0], l2 / l2[i0], 1e-7, 1e-10), "lorentzian2: the square of a Lorentzian around its centre", got=got, want=l2, **info)
    for f in (frac, 0, 1):
        same("pvoigt", ck.real(ls.pvoigt, x, area, c, s, f), f * lz + (1 - f) * g, "the fraction is the Lorentzian's")
    same("gausssian_step", ck.real(ls.gausssian_step, x, area, c, s, pe), area * erfc / (2 * pe), "falls from area over energy to nil, half at the centre")
    same("gaussian_tail", ck.real(ls.gaussian_tail, x, area, c, s, gam), tail, "exponential towards lower energies, cut at the centre")
    if rng.randint(4) == 0:
        for gm in (None, gam * sf, sf / 3):
            got = ck.real(ls.voigt, x, area, c, s) if gm is None else ck.real(ls.voigt, x, area, c, s, gm)
            want = np.array([area * voigt_ref(float(v), sf, sf if gm is None else gm) for v in arg * sf])
            same("voigt", got, want, "the convolution of a Gaussian with a Lorentzian", 1e-6)
        wide = sf * float(rng.choice([30, 300, 3000, 1e5, 1e8]))
        want = np.array([area * voigt_ref(float(v), sf, wide) for v in arg * sf])
        got = ck.real(ls.voigt, x, area, c, s, wide)
        same("voigt", got, want, "the convolution of a Gaussian with a wide Lorentzian", 1e-6, 1e-7 * sf / wide)
        got = ck.real(ls.voigt, x, area, c, s, gamma=sf * 1e-8)
        same("voigt", got, g, "without a Lorentzian a Gaussian", 1e-5, 1e-6)
        for zero in (0, 0.0):
            same("voigt", ck.real(ls.voigt, x, area, c, s, zero), g, "without a Lorentzian a Gaussian", 1e-9, 1e-9)
    ck.expect(np.array_equal(x, keep), "positions are left alone", **info)
    ck.traced(len(ans))
    ck.sample(case=a)


def photons(ck, ls, rng, a, ans):
    k = a["kn"] / a["kd"]
    m = a["mn"] / a["md"]
    bins = np.arange(a["n"] + 1)
    bins = bins.astype([int, float, np.uint8, np.int8, np.int64][rng.randint(5)])
    kk = a["kn"] if a["kd"] == 1 and rng.randint(2) else k
    mm = a["mn"] if a["md"] == 1 and rng.randint(2) else m
    rel = np.array([rat(e["p"]) for e in ans])
    keep = bins.copy()
    if a["mn"] == 0:
        want = math.exp(-k) * rel
        got = ck.real(ls.poisson_dist, bins, kk)
        ck.expect(not is_raised(got) and close(got, want, 1e-9, 1e-12), "poisson_dist: probability of each count", case=a, got=got, want=want)
    else:
        z = rat(ans[0]["zero"]) if ans[0]["zero"][1] else (m / (k + m)) ** m
        want = z * rel
        got = ck.real(ls.nbinom_dist, bins, kk, mm)
        ck.expect(not is_raised(got) and close(got, want, 1e-8, 1e-12), "nbinom_dist: probability of each count", case=a, got=got, want=want)
        x = np.concatenate([bins[1:], bins[:-1] + 0.25, [k]]).astype(float)
        want = np.array([(m / k) ** m * v ** (m - 1) * math.exp(-m * v / k) / math.gamma(m) for v in x])
        got = ck.real(ls.gamma_dist, x, kk, mm)
        ck.expect(not is_raised(got) and close(got, want, 1e-8, 1e-12), "gamma_dist: density of intensities with this mean and number of modes",
                  case=a, got=got, want=want)
    ck.expect(np.array_equal(bins, keep), "counts are left alone", case=a)
    ck.traced(len(ans))


def areas(ck, ls, rng):
    """The area asked for is the integral."""
    for t in range(ck.size(8, 60)):
        s = float(rng.randint(1, 40)) / 8
        c = float(rng.randint(-40, 80)) / 4
        area = float(rng.randint(1, 50)) / 4
        gam = float(rng.randint(2, 17)) / 4
        m = 200001
        th = (np.arange(m) + 0.5) / m * math.pi - math.pi / 2
        x = c + 3 * s * np.tan(th)
        jac = 3 * s / np.cos(th) ** 2 * (math.pi / m)
        calls = dict(gaussian=(), lorentzian=(), lorentzian2=(), voigt=(), voigt2=(gam * s,), pvoigt=(0.25,), gaussian_tail=(gam,))
        for name, extra in sorted(calls.items()):
            fn = getattr(ls, name.rstrip("2") if name == "voigt2" else name)
            got = ck.real(fn, x, area, c, s, *extra)
            if not ck.expect(not is_raised(got), name + ": an answer", got=got, area=area, sigma=s):
                continue
            total = float(np.nansum(np.asarray(got) * jac)) / area
            half = abs(total - 0.5) < 1e-6
            # the part of a tail that is left when it is cut at the centre
            cut = name == "gaussian_tail" and 0.2 < total < 1 and abs(total - tail_part(gam)) < 1e-4
            ck.expect(abs(total - 1) < 1e-5, name.replace("voigt2", "voigt") + ": the integral is the area", total=total, half=half, cut=bool(cut), gamma=gam, sigma=s)
    # profiles move with the centre and scale with the area
    x = np.linspace(-3, 9, 25)
    for name, extra in (("gaussian", ()), ("lorentzian", ()), ("lorentzian2", ()), ("voigt", ()), ("voigt", (0.4,)), ("pvoigt", (0.3,)), ("gausssian_step", (7.0,)), ("gaussian_tail", (1.5,))):
        fn = getattr(ls, name)
        one = ck.real(fn, x, 1.0, 2.0, 0.75, *extra)
        ck.expect(not is_raised(one) and close(ck.real(fn, x + 4.25, 1.0, 6.25, 0.75, *extra), one, 1e-9, 1e-12), name + ": moves with the centre", got=one)
        ck.expect(not is_raised(one) and close(ck.real(fn, x, 12.5, 2.0, 0.75, *extra), 12.5 * np.asarray(one), 1e-9, 1e-12), name + ": grows with the area", got=one)
        # in any unit of length and of counts
        for v, u in ((2.0**-30, 1.0), (2.0**-45, 2.0**-40), (2.0**20, 2.0**60)):
            more = [extra[0] * v] if name in ("voigt", "gausssian_step") and extra else extra
            got = ck.real(fn, x * v, u, 2.0 * v, 0.75 * v, *more)
            ck.expect(not is_raised(one) and close(np.asarray(got) * v / u, one, 1e-9, 1e-12), name + ": the same in any unit", units=[v, u], got=got, want=one)
    b = np.arange(1, 12) / 4.0
    for v in (2.0**-30, 2.0**-45, 2.0**20):
        for k, m in ((1.5, 2.0), (3.0, 0.5), (0.25, 7.0)):
            one, got = ck.real(ls.gamma_dist, b, k, m), ck.real(ls.gamma_dist, b * v, k * v, m)
            ck.expect(not is_raised(one) and close(np.asarray(got) * v, one, 1e-9, 1e-12), "gamma_dist: the same in any unit", unit=v, got=got, want=one)


def channels(ck, ls, rng):
    """Channel numbers and counts of narrow types: the same as with wide ones."""
    for t in (np.uint8, np.int8, np.uint16, np.int16, np.int32):
        x = np.arange(0, min(np.iinfo(t).max, 4000) + 1, 1 if np.iinfo(t).max < 300 else 37)
        for quad in (0, 1e-5, -2e-6):
            for lin, scale in ((0.01, 1.0), (1, 100.0)):
                cal = (0.1 * scale, lin, quad)
                for f, args in ((ls.elastic, (5.0, 11.0 * scale, 0.1 * scale, 0.01) + cal),
                                (ls.compton, (5.0, 11.0 * scale, 0.1 * scale, 0.01) + cal + (90.0, 1.5, 0.1, 0.2, 4.0, 0.1, 3.0))):
                    got, want = ck.real(f, x.astype(t), *args), ck.real(f, x.astype(float), *args)
                    ck.expect(not is_raised(got) and not is_raised(want) and close(got, want, 1e-9, 1e-12), f.__name__ + ": channels of any type of number",
                              type=t.__name__, args=args, got=got, want=want)
        b = x[x < 1000]
        for f, args in ((ls.poisson_dist, (100,)), (ls.poisson_dist, (90.5,)), (ls.nbinom_dist, (100, 5)), (ls.nbinom_dist, (80.0, 30.0)), (ls.gamma_dist, (100, 5))):
            got, want = ck.real(f, b.astype(t), *args), ck.real(f, b.astype(float), *args)
            ck.expect(not is_raised(got) and not is_raised(want) and close(got, want, 1e-9, 1e-15), f.__name__ + ": counts of any type of number",
                      type=t.__name__, args=args, got=got, want=want)
        ck.traced()


def decay(ck, rng):
    """The correlation of a diffusing sample: contrast times the square of a decay, on a baseline."""
    from skbeam.core.correlation import auto_corr_scat_factor

    for _ in range(ck.size(60, 500)):
        beta, rate, base = float(rng.uniform(0, 1)), float(rng.uniform(0, 3)), float(rng.choice([1, 1, 0.5, 1.25]))
        if rng.randint(3) == 0:
            rate = int(rng.randint(0, 5))
        n = np.concatenate([[0], np.cumsum(rng.randint(1, 30, int(rng.randint(1, 30))))])
        t = [np.int64, np.int16, np.uint8, np.float32, float][rng.randint(5)]
        lags = (n[n < 250] if t is np.uint8 else n).astype(t)
        if t in (float, np.float32):
            lags = lags * t(0.25) - t([0, 0, 1][rng.randint(3)])
        keep = lags.copy()
        got = ck.real(auto_corr_scat_factor, lags, beta, rate, *([] if base == 1 and rng.randint(2) else [base]))
        want = [beta * math.exp(-rate * float(v)) ** 2 + base for v in lags]
        ck.expect(not is_raised(got) and close(got, want, 1e-5 if t is np.float32 else 1e-9, 1e-12) and np.array_equal(lags, keep),
                  "auto_corr_scat_factor: contrast times the squared decay, on the baseline", lags=lags, type=t.__name__, beta=beta, rate=rate, base=base, got=got, want=want)
        ck.traced()


def tail_part(gam):
    """Integral of the tail cut at the centre, width and area 1."""
    v = np.linspace(-12 * (1 + gam), 12, 400001)
    y = np.exp(np.minimum(v, 0) / gam) * np.array(vec_erfc(v / S2 + 1 / (gam * S2))) / (2 * gam * math.exp(-0.5 / gam**2))
    return float(y.sum() * (v[1] - v[0]))


def vec_erfc(v):
    import scipy.special

    return scipy.special.erfc(v)


def large(ck, ls, rng):
    """Larger counts: sums, means and variances."""
    for t in range(ck.size(25, 250)):
        k = float(rng.randint(1, 80)) / 4 if rng.randint(2) else int(rng.randint(1, 40))
        m = float(rng.randint(1, 60)) / 4 if rng.randint(2) else int(rng.randint(1, 30))
        if t % 4 == 0:
            m = [1e-5, 0.004, 0.02, 0.1, 200.0, 1e4][t // 4 % 6]
        if t % 5 == 0:
            k = float(rng.choice([1e-9, 1e-4, 0.01, 150]))
        n = 1400
        b = np.arange(n)
        got = ck.real(ls.nbinom_dist, b, k, m)
        info = dict(mean=k, modes=m)
        if ck.expect(not is_raised(got) and np.shape(got) == (n,), "nbinom_dist: an answer", got=got, **info):
            ref = np.exp([math.lgamma(j + m) - math.lgamma(j + 1) - math.lgamma(m) + m * math.log(m / (k + m)) + j * math.log(k / (k + m)) for j in b])
            ck.expect(close(got, ref, 1e-6, 1e-12), "nbinom_dist: probability of each count", got=got, want=ref, **info)
            if ref[-1] < 1e-16:
                ck.expect(abs(got.sum() - 1) < 1e-6, "nbinom_dist: adds up to one", got=got.sum(), **info)
                ck.expect(abs((got * b).sum() / k - 1) < 1e-6, "nbinom_dist: has its mean", got=(got * b).sum(), **info)
                var = (got * b * b).sum() - (got * b).sum() ** 2
                ck.expect(abs(var / (k + k * k / m) - 1) < 1e-5, "nbinom_dist: the variance of k photons in m modes", got=var, **info)
        b = np.arange(int(4 * k) + 40)
        got = ck.real(ls.poisson_dist, b, k)
        ref = np.exp([j * math.log(k) - k - math.lgamma(j + 1) for j in b])
        ck.expect(not is_raised(got) and close(got, ref, 1e-6, 1e-12), "poisson_dist: probability of each count", got=got, want=ref, **info)
        b = np.sort(rng.uniform(0, 3 * k + 3, 12))
        got = ck.real(ls.poisson_dist, b, k)
        ref = np.exp([j * math.log(k) - k - math.lgamma(j + 1) for j in b])
        ck.expect(not is_raised(got) and close(got, ref, 1e-6, 1e-12), "poisson_dist: between the counts", at=b, got=got, want=ref, **info)
        got = ck.real(ls.nbinom_dist, b, k, m)
        ref = np.exp([math.lgamma(j + m) - math.lgamma(j + 1) - math.lgamma(m) + m * math.log(m / (k + m)) + j * math.log(k / (k + m)) for j in b])
        ck.expect(not is_raised(got) and close(got, ref, 1e-6, 1e-12), "nbinom_dist: between the counts", at=b, got=got, want=ref, **info)
        x = np.linspace(0.01, 6, 40) * k
        if t % 3 == 0:
            x = x.astype(np.float32)
            got = ck.real(ls.gamma_dist, x, k, m)
            ref = np.exp([(m - 1) * math.log(v) - m * v / k + m * math.log(m / k) - math.lgamma(m) for v in map(float, x)])
            ck.expect(not is_raised(got) and close(got, ref, 1e-3, 1e-6), "gamma_dist: density of intensities given in single precision", got=got, want=ref, **info)
            x = x.astype(float)
        got = ck.real(ls.gamma_dist, -x, k, m)
        ck.expect(not is_raised(got) and close(got, 0 * x), "gamma_dist: no intensity is below zero", got=got, **info)
        got = ck.real(ls.gamma_dist, x, k, m)
        ref = np.exp([(m - 1) * math.log(v) - m * v / k + m * math.log(m / k) - math.lgamma(m) for v in x])
        ck.expect(not is_raised(got) and close(got, ref, 1e-6, 1e-12), "gamma_dist: density of intensities with this mean and number of modes", got=got, want=ref, **info)
        ck.traced()
