"""B01: the background under a spectrum."""
import math
from fractions import Fraction as Fr

import numpy as np

from common import close, is_raised, nonvacuous

K2 = 8 * math.log(2)  # square of the ratio of full width to standard deviation


def squares(a):
    """Squares of the windows, exactly."""
    b = a["bin"] or 1
    out = []
    for i in range(len(a["v"])):
        x = i * b
        n = a["wn"] ** 2 * max(0, 32 * a["o"] ** 2 + a["en"] * a["l"] * (8 * a["o"] + 8 * x * a["l"] + x * x * a["q"]))
        out.append(Fr(n, 512 * a["l"] ** 2 * (4 if a["bin"] else 1)))
    return out


def plain(fr):
    """No window ends on a channel, so that rounding decides nothing."""
    if fr.denominator == 1 and fr > 0:
        return math.isqrt(fr.numerator) ** 2 != fr.numerator
    return True


def clear(a):
    sq = squares(a)
    top = max(sq)
    if top > 120 or top < Fr(1, 30):
        return False
    thr = Fr(a["tn"], 4) ** 2
    s = 1
    for step in range(14):
        if top / s == thr or not all(plain(w / s) for w in sq):
            return False
        if max(w.numerator for w in sq) * 16 > 2**30 or 512 * a["l"] ** 2 * 4 * s * max(a["tn"] ** 2, 1) > 2**31 - 1:
            return False
        if top / s < thr:
            return a["iter"] + step <= 16
        s *= a["d"]
    return False


def case(rng):
    while True:
        n = int(rng.randint(1, 25))
        kind = rng.randint(4)
        if kind == 0:
            v = [int(x) for x in rng.randint(0, 25, n)]
        elif kind == 1:  # peaks on a flat or sloping background
            s, o = int(rng.randint(-1, 2)), int(rng.randint(0, 6))
            v = [min(24, max(0, o + s * i // 3)) for i in range(n)]
            for _ in range(rng.randint(1, 4)):
                at, h = rng.randint(n), int(rng.randint(3, 16))
                for d in (-1, 0, 1):
                    if 0 <= at + d < n:
                        v[at + d] = min(24, v[at + d] + h // (1 + abs(d)))
        elif kind == 2:
            v = [int(rng.randint(0, 20))] * n
        else:
            v = [int(x) for x in rng.randint(0, 25, n)]
            for _ in range(rng.randint(1, 3)):
                v[rng.randint(n)] = -1
        a = dict(v=v, o=int(rng.randint(-12, 17)), l=int(rng.randint(1, 5)), q=int(rng.choice([0, 0, 0, 1, 2])), wn=int(rng.randint(1, 9)), en=int(rng.choice([0, 0, 1, 2, 3, 8, 16])),
                 tn=int(rng.randint(1, 6)), d=int(rng.choice([2, 2, 3, 4])), iter=int(rng.randint(0, 5)), bin=int(rng.choice([0, 0, 0, 1, 2, 3])), xmin=0, xmax=4096)
        if rng.randint(2):
            a["xmin"] = int(rng.randint(-2, n))
            a["xmax"] = int(rng.randint(max(a["xmin"], 0), n + 3))
        if clear(a):
            return a


def up(v):
    """From the double logarithmic scale to counts."""
    return np.where(np.asarray(v) < 0, -3.0, np.exp(np.exp(np.maximum(v, 0)) - 1) - 1)


def down(y):
    return np.log(np.log(np.asarray(y, dtype=float) + 1) + 1)


def run(ck):
    from skbeam.core.fitting.background import snip_method

    rng = ck.np_rng
    cases = [case(rng) for _ in range(ck.size(500, 6000))]
    r = ck.tlc("Snip", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Under Floor Bad Ends Report\nPROPERTIES Falls\nCONSTANTS Cases <- CasesDef\n",
               data=cases, defs="CasesDef == Data", workers=4)
    ans = {e["case"]: e for e in r.out}
    nonvacuous(len(ans) == len(cases), "every case comes to an end")
    clipped = 0
    for i, a in enumerate(cases, 1):
        clipped += one(ck, snip_method, rng, a, ans[i])
    nonvacuous(clipped > len(cases) // 5, "spectra with something to clip")
    whole(ck, snip_method, rng)


def settings(a):
    return dict(xmin=a["xmin"], xmax=a["xmax"], epsilon=a["en"] / 4 / K2, width=a["wn"] / 4, decrease_factor=math.sqrt(a["d"]), spectral_binning=a["bin"] or None,
                iter_num=a["iter"], width_threshold=a["tn"] / 4)


def one(ck, snip, rng, a, ans):
    y = up(np.array(a["v"]) / 8)
    bad = np.array(a["v"]) < 0
    want = np.array(ans["v"], dtype=float) / 2.0 ** ans["p"] / 8
    want[bad] = 0
    cal = (a["o"] / 8, a["l"] / 8, a["q"] / 64)
    kw = settings(a)
    keep = y.copy()
    arg = [y, list(y), y[::-1][::-1], np.repeat(y, 3)[::3]][rng.randint(4)]
    got = ck.real(snip, arg, *cal, con_val=1, **kw)
    ok = not is_raised(got) and np.shape(got) == y.shape and np.all(np.isfinite(got)) and close(down(got), want, 1e-9, 1e-9)
    ck.expect(ok, "every channel is lowered to the mean of those one window away, while the window shrinks", case=a, got=down(got) if not is_raised(got) else got, want=want)
    ck.expect(np.array_equal(np.asarray(arg), keep), "the spectrum is left alone", case=a)
    ck.traced()
    ck.sample(case=a, want=want)
    if not bad.any() and not is_raised(got):
        # smoothing comes first; the number of passes has its defaults
        m = int(rng.randint(2, 7))
        if len(y) >= m:
            full = np.convolve(y, np.ones(m)) / m
            sm = full[(m - 1) // 2: (m - 1) // 2 + len(y)]
            one_ = ck.real(snip, y, *cal, con_val=m, **kw)
            two = ck.real(snip, sm, *cal, con_val=1, **kw)
            top = 1e-9 * (1 + y.max())
            ck.expect(not is_raised(one_) and not is_raised(two) and near(one_, two, top), "the spectrum is smoothed first", case=a, size=m, got=one_, want=two)
        cv, it = (5, 5) if a["bin"] else (3, 3)
        k2 = dict(kw)
        del k2["iter_num"]
        one_ = ck.real(snip, y, *cal, **k2)
        two = ck.real(snip, y, *cal, con_val=cv, iter_num=it, **k2)
        ck.expect(not is_raised(one_) and near(one_, two, 1e-9 * (1 + y.max())), "smoothing and passes as documented unless given", case=a, got=one_, want=two)
    return bool(np.any(want[~bad] < np.array(a["v"])[~bad] / 8 - 1e-9))


def near(a, b, atol):
    # compared on the scale of the method, where errors do not grow
    return np.shape(a) == np.shape(b) and close(a, b, 1e-6, atol)


def whole(ck, snip, rng):
    """Spectra of the usual size, with the usual settings."""
    for t in range(ck.size(6, 40)):
        n = int(rng.choice([300, 1000, 2500, 4500]))
        ch = np.arange(n)
        e_off, e_lin = float(rng.uniform(-0.05, 0.05)), float(rng.uniform(0.008, 0.015)) * 1000 / max(n, 1000)
        base = 50 + 100 * np.exp(-ch / (0.4 * n))
        y = base.copy()
        for _ in range(5):
            c, s = rng.uniform(0.2, 0.8) * n, 0.06 / e_lin * rng.uniform(0.8, 1.2)
            y += rng.uniform(100, 5000) * np.exp(-((ch - c) ** 2) / (2 * s * s))
        y = rng.poisson(y)
        cal = (e_off, e_lin, 0.0)
        kw = dict(width=float(rng.uniform(0.4, 0.8))) if rng.randint(2) else {}
        got = ck.real(snip, y, *cal, **kw)
        info = dict(n=n, cal=cal, kw=kw)
        if not ck.expect(not is_raised(got) and np.shape(got) == (n,) and np.all(np.isfinite(got)), "a background", got=got, **info):
            continue
        sm = np.convolve(y, np.ones(3), mode="same") / 3
        ck.expect(bool(np.all(got <= sm * (1 + 1e-9) + 1e-9)) and bool(np.all(got >= -1e-9)), "the background lies under the smoothed spectrum, not below nil", **info)
        ref = reference(y, *cal, 0, 4096, 2.96, kw.get("width", 0.5), math.sqrt(2), None, 3, 3, 0.5)
        ck.expect(float(np.mean(np.abs(down(got) - down(ref)) < 1e-6)) > 0.999, "the same by the rule, channel by channel", got=got, want=ref, **info)
        # faint spectra, say, relative to a monitor or to their sum
        for top in (1e-3, 1e-7, 1e-11):
            faint = y * (top / y.max())
            got = ck.real(snip, faint, *cal, **kw)
            ref = reference(faint, *cal, 0, 4096, 2.96, kw.get("width", 0.5), math.sqrt(2), None, 3, 3, 0.5)
            ck.expect(not is_raised(got) and np.shape(got) == (n,) and float(np.mean(np.abs(got - ref) < 1e-6 * top + 2e-14)) > 0.999, "the same for faint spectra", top=top, got=got, want=ref, **info)
        part = dict(xmin=int(0.1 * n), xmax=int(0.9 * n))
        got = ck.real(snip, y, *cal, **dict(kw, **part))
        ref = reference(y, *cal, part["xmin"], part["xmax"], 2.96, kw.get("width", 0.5), math.sqrt(2), None, 3, 3, 0.5)
        ck.expect(not is_raised(got) and np.shape(got) == (n,) and float(np.mean(np.abs(down(got) - down(ref)) < 1e-6)) > 0.999, "the same within bounds", got=got, want=ref, **info)
        got = ck.real(snip, y, *cal, spectral_binning=2, **kw)
        ref = reference(y, *cal, 0, 4096, 2.96, kw.get("width", 0.5), math.sqrt(2), 2, 5, 5, 0.5)
        ck.expect(not is_raised(got) and np.shape(got) == (n,) and float(np.mean(np.abs(down(got) - down(ref)) < 1e-6)) > 0.999, "the same for a binned spectrum", got=got, want=ref, **info)
        ck.traced(3)


def reference(y, o, l, q, xmin, xmax, eps, width, dec, binning, con, it, thr):
    n = len(y)
    sm = np.convolve(np.asarray(y, dtype=float), np.ones(con))[(con - 1) // 2:][:n] / con
    v = [math.log(math.log(s + 1) + 1) for s in sm]
    x = [i * (binning or 1) for i in range(n)]
    w = [width / l * math.sqrt(max(0.0, o * o + K2 * (o + k * l + k * k * q) * eps * l)) / (2 if binning else 1) for k in x]
    a, b = max(xmin, 0), min(xmax, n - 1)
    passes = [1.0] * it
    f = 1.0
    while max(w) / f >= thr:
        passes.append(f)
        f *= dec
    for f in passes:
        lo = [int(min(max(i - u / f, a), b)) for i, u in enumerate(w)]
        hi = [int(min(max(i + u / f, a), b)) for i, u in enumerate(w)]
        v = [min(s, (v[p] + v[r]) / 2) for s, p, r in zip(v, lo, hi)]
    return np.array([math.exp(math.exp(s) - 1) - 1 for s in v])
