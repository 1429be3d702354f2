"""F01: candidate peaks, their refinement, integrals over regions, alignment."""
import numpy as np

from common import close, is_raised, nonvacuous, same_ints, unit


def pipe(rng):
    n = int(rng.randint(1, 14)) if rng.randint(30) else int(rng.randint(130, 300))
    y = [int(v) for v in rng.permutation(max(30, n))[:n] - int(rng.randint(0, 3)) * 5]
    k = int(rng.randint(0, n + 1)) if n < 100 else int(rng.randint(1, 140))
    cands = [int(v) for v in rng.permutation(n)[:k]]
    if rng.randint(2):
        cands.sort()
    return dict(op="pipe", y=y, cands=cands, window=int(rng.randint(0, 7)) if n < 100 else int(rng.randint(0, 40)), thresh=int(rng.randint(-1, 25)),
                most=int(rng.randint(1, 6)) if n < 100 else int(rng.randint(1, 120)),
                reject=int(rng.choice([2, 3, 5, 1000, 1])))


def quad(rng):
    pattern = [[0, 0, 0], [-1, 3, -3, 1], [-1, 2, 0, -2, 1], [1, -4, 6, -4, 1]][rng.randint(4)]
    n = len(pattern)
    b0 = int(rng.choice([-3, -2, -1, 1, 2]))
    m = int(rng.randint(-2, n + 2))          # centre, counted in samples from the first (half samples allowed)
    half = int(rng.randint(2))
    top = int(rng.randint(-5, 20))
    e = int(rng.choice([0, 1, 2, 3, -2]))
    # y = b0 (2 t - (2 m + half))^2 + top, t the sample number
    y = [b0 * (2 * t - 2 * m - half) ** 2 + top + e * pattern[t] for t in range(n)]
    p, q = [(1, 2), (9, 10), (3, 4), (99, 100), (1, 10)][rng.randint(5)]
    return dict(op="quad", y=y, pattern=pattern, e=e, b0=b0, m=m, half=half, top=top, p=p, q=q)


def integral(rng):
    n = int(rng.randint(2, 12)) if rng.randint(20) else int(rng.randint(60, 90))
    x = np.cumsum(rng.choice([2, 2, 2, 4, 6], n) if rng.randint(2) else np.full(n, 2)) + int(rng.randint(-20, 10))
    x = x - x[0] % 2
    edges = []
    if rng.randint(3) == 0:      # centres of uneven bins
        edges = np.cumsum(rng.choice([2, 2, 4, 6], n + 1)) * 2 - 40
        x = (edges[1:] + edges[:-1]) // 2
        edges = [int(v) for v in edges]
    p0, p1, p2 = (int(v) for v in rng.randint(-4, 5, 3))
    while 6 * (abs(p2) + 1) * float(np.abs(x).max() + 1) ** 3 * 2 > 2e9 and p2:      # TLC's numbers end at 2^31
        p2 = p2 - 1 if p2 > 0 else p2 + 1
    y = p0 + p1 * x + p2 * x * x
    k = int(rng.randint(1, 4))
    lo, hi = int(x[0]), int(x[-1])
    mins, maxs = [], []
    for _ in range(k):
        a, b = sorted(int(v) for v in rng.choice(np.arange(lo, hi + 1), 2, replace=False))
        mins.append(a)
        maxs.append(b)
    w = rng.randint(24)
    if w == 0:
        mins[0] = lo - 1
    elif w == 1:
        maxs[-1] = hi + 1
    elif w == 2:
        mins.append(lo)
    elif w == 3:
        mins[0] = maxs[0]
    elif w == 4 and n > 3:
        x[[1, 2]] = x[[2, 1]]
    elif w == 5 and n > 2:
        x[1] = x[0]
    elif w == 6:
        mins[-1], maxs[-1] = maxs[-1], mins[-1]
    elif w == 7 and n > 3:
        y = y[:-1]
    x, y = [int(v) for v in x], [int(v) for v in y]
    if w in (4, 5):
        edges = []
    if rng.randint(2):
        x, y, edges = x[::-1], y[::-1], edges[::-1]
    return dict(op="integral", edges=edges, slight=int([0, 1][rng.randint(2)]) if w < 2 else 0, x=x, y=y, p0=p0, p1=p1, p2=p2, mins=mins, maxs=maxs)


def align(rng):
    k = int(rng.randint(1, 5))
    return dict(op="align", energies=[sorted(int(v) for v in rng.choice(60, int(rng.randint(3, 9)), replace=False)) for _ in range(k)],
                peaks=[[int(rng.randint(-5, 60)), int(rng.randint(1, 9)) * int(rng.choice([1, 1, 1, 20]))] for _ in range(k)])


def arr(rng, v, dtypes=(float, int)):
    a = np.array(v, dtype=dtypes[rng.randint(len(dtypes))])
    if rng.randint(4) == 0 and len(a):
        a = np.repeat(a, 2)[::2]
    return a


def run(ck):
    from skbeam.core import feature as ft
    from skbeam.core import spectroscopy as sp
    from skbeam.core.fitting.funcs import fit_quad_to_peak

    rng = ck.np_rng
    n = ck.size(300, 4000)
    cases = ([pipe(rng) for _ in range(2 * n)] + [quad(rng) for _ in range(n)] + [integral(rng) for _ in range(2 * n)] + [align(rng) for _ in range(n // 3)])
    r = ck.tlc("Peaks", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Subset Bound InOrder Inside Report\nCONSTANTS Cases <- CasesDef\n",
               data=cases, defs="CasesDef == Data", workers=4)
    by = {}
    for e in r.out:
        by.setdefault(e["case"], []).append(e["ans"])
    nonvacuous(len(by) == len(cases), "an answer per case")
    seen = dict(pipe=0, empty=0, rejected=0, quad=0, refused=0, integral=0, spectrum=0, uneven=0, align=0)
    for i, a in enumerate(cases):
        ans = by[i + 1]
        if a["op"] == "pipe":
            pipeline(ck, ft, rng, a, ans, seen)
        elif a["op"] == "quad":
            quadratic(ck, ft, fit_quad_to_peak, rng, a, ans[0], seen)
        elif a["op"] == "integral":
            region(ck, sp, rng, a, ans[0], seen)
        else:
            scales = [float(rng.choice([1, 0.1, 2.5])) * unit(rng)] * 1
            e = [np.array(v, dtype=float) * scales[0] for v in a["energies"]]
            cnt = [rng.randint(0, 50, len(v)) for v in e]
            peaks = iter([(p[0] * scales[0], 7.0, p[1] * scales[0]) for p in a["peaks"]])
            calls = []

            def pk(x, y):
                calls.append((np.array(x), np.array(y)))
                return next(peaks)

            got = ck.real(sp.align_and_scale, e, cnt, pk)
            ok = (not is_raised(got) and len(got) == 2 and len(got[0]) == len(got[1]) == len(e)
                  and all(close(np.asarray(g) / scales[0], [w[0] / w[1] for w in ww]) for g, ww in zip(got[0], ans[0]))
                  and all(np.array_equal(g, w) for g, w in zip(got[1], cnt))
                  and all(np.array_equal(q[0], x) and np.array_equal(q[1], y) for q, x, y in zip(calls, e, cnt)))
            ck.expect(ok, "spectra are aligned on their peak and scaled to the first width", energies=e, peaks=a["peaks"], got=got, want=ans[0])
            ck.traced()
            seen["align"] += 1
    for k, v in seen.items():
        nonvacuous(v > 20, "%s: only %d" % (k, v))
    gauss(ck, ft, sp, rng)


def pipeline(ck, ft, rng, a, ans, seen):
    ans = sorted(ans, key=lambda t: t[0])
    y = arr(rng, a["y"])
    u = unit(rng) if y.dtype == float else 1
    u = u * [1, 2**25 + 1, 2**26 - 3][rng.randint(3)]        # counts of many digits
    y = y * u
    cands = arr(rng, a["cands"], (int, np.int32, np.int64, np.uint16, np.uint64) + ((np.uint8, np.int8) if max(a["cands"] + [0]) < 128 else ()))
    if rng.randint(4) == 0:
        cands = list(a["cands"])
    w = a["window"]
    case = dict(y=y, cands=cands, window=w, thresh=a["thresh"], most=a["most"], reject=a["reject"])
    keep = y.copy()
    yl = list(y) if rng.randint(4) == 0 else y
    h = ck.real(ft.filter_peak_height, yl, cands, a["thresh"] * u, window=w) if w != 5 or rng.randint(4) == 0 else ck.real(ft.filter_peak_height, yl, cands, a["thresh"] * u)
    if not ck.expect(not is_raised(h) and same_ints(h, ans[1][1]), "candidates higher than the threshold in their window pass, in order", got=h, want=ans[1][1], **case):
        return
    # heights are whole numbers here: a threshold a hair below the next one makes no difference
    got = ck.real(ft.filter_peak_height, yl, cands, (a["thresh"] + 1 - 2.0**-30) * u, window=w)
    ck.expect(not is_raised(got) and same_ints(got, ans[1][1]), "candidates higher than the threshold pass, by however little", got=got, want=ans[1][1], **case)
    lo, span = min(a["y"]), max(a["y"]) - min(a["y"])
    if 0 < span < 120:
        # counts over all that a byte with a sign holds
        k = 240 // span
        got = ck.real(ft.filter_peak_height, ((np.array(a["y"]) - lo) * k - 120).astype(np.int8), cands, a["thresh"] * k, window=w)
        ck.expect(not is_raised(got) and same_ints(got, ans[1][1]), "candidates higher than the threshold in their window pass, whatever the type of the counts", got=got,
                  want=ans[1][1], **case)
    if not len(h):
        seen["empty"] += 1
    m = ck.real(ft.filter_n_largest, y, h, a["most"])
    if not ck.expect(not is_raised(m) and same_ints(m, ans[2][1]), "the largest candidates pass, in descending order", got=m, want=ans[2][1], **case):
        return
    high = ck.real(ft.filter_n_largest, np.array(a["y"]) + [2**40, 2.0**40, -2**40, -2.0**40][rng.randint(4)], h, a["most"])
    ck.expect(not is_raised(high) and same_ints(high, ans[2][1]), "the largest candidates pass, also among large numbers close together", got=high, want=ans[2][1], **case)
    v = unit(rng)
    x = np.cumsum(rng.randint(1, 4, len(y))) * 0.5 * v
    calls = []

    def refine(xx, yy, **kw):
        calls.append((np.array(xx), np.array(yy), kw))
        if int(np.sum(yy) / u) % a["reject"] == 0:
            raise ft.PeakRejection()
        return xx[0] + 100 * xx[-1], np.sum(yy)

    args = [None, dict(k=3), {}][rng.randint(3)]
    lists = rng.randint(4) == 0
    got = ck.real(ft.peak_refinement, list(x) if lists else x, list(y) if lists else y, [float(v) for v in m] if lists else m,
                  w if rng.randint(2) else float(w), refine, args)
    ck.expect(is_raised(got) or isinstance(got, tuple), "positions and heights are a pair", got=got, **case)
    want = ans[-1][2]
    ok = not is_raised(got) and len(got) == 2 and close(np.asarray(got[0]) / v, [(x[s[1]] + 100 * x[s[2]]) / v for s in want]) and close(np.asarray(got[1]) / u, [s[3] for s in want])
    ok = ok and len(calls) == len(m) and all(q[2] == (args or {}) for q in calls)
    for q, i in zip(calls, ans[2][1]):
        lo, hi = max(0, i - w), min(len(y) - 1, i + w)
        ok = ok and np.array_equal(q[0], x[lo:hi + 1]) and np.array_equal(q[1], y[lo:hi + 1])
    ck.expect(ok, "each accepted candidate is refined in its window, rejected ones left out", got=got, want=want, calls=calls, **case)
    ck.expect(np.array_equal(keep, y), "the data are left alone", **case)
    seen["rejected"] += len(m) - len(want)
    seen["pipe"] += 1
    ck.traced()
    ck.sample(y=a["y"], cands=a["cands"], kept=ans[2][1], refined=want)


def quadratic(ck, ft, fit, rng, a, ans, seen):
    reject, tie, orth = ans
    nonvacuous(orth, "pattern orthogonal")
    v = unit(rng)
    step, start = float(rng.choice([1, 0.5, 2, 0.1])) * v, float(rng.randint(-6, 20)) * v * float([1, 1, 1000, 2**16][rng.randint(4)])
    x = start + step * np.arange(len(a["y"]))
    u = unit(rng)
    u = u * float([1, 0.1][rng.randint(2)])
    y = np.array(a["y"], dtype=float) * u
    centre = start + step * (a["m"] + a["half"] / 2.0)
    b0 = a["b0"] * 4 / step**2
    case = dict(x=x, y=y, e=a["e"])
    got = ck.real(fit, x, y)
    tol = 1e-8 if abs(start) <= 200 * step else 1e-5
    ok = not is_raised(got) and close((np.array(got[0]) - [0, centre, 0]) / [u / step**2, step, u], [4 * a["b0"], 0, a["top"]], rtol=tol, atol=tol)
    ck.expect(ok, "the parabola is the least-squares one", got=got, want=[b0, centre, a["top"]], **case)
    thr = a["p"] / float(a["q"])
    for f, yy, hh in ((ft.refine_quadratic, y, a["top"]), (ft.refine_log_quadratic, np.exp(y / u / 8.0) * u, np.exp(a["top"] / 8.0))):
        got = ck.real(f, x, yy)
        ck.expect(not is_raised(got) and close((got[0] - centre) / step, 0, atol=1e-5) and close(np.asarray(got[1]) / u, hh, rtol=1e-4, atol=1e-4),
                  "the refined centre and height are those of the parabola", got=got, want=[centre, hh], f=f.__name__, **case)
        if tie or len(set(a["y"])) == 1:
            continue
        got = ck.real(f, x, yy, Rval_thresh=thr)
        ck.expect(is_raised(got, "PeakRejection") == reject and (reject or not is_raised(got)),
                  "a fit worse than the threshold is rejected, no other", got=got, reject=reject, thresh=thr, f=f.__name__, **case)
    narrow(ck, ft, fit, rng, a, case)
    got = ck.real(fit, x[:2], y[:2])
    ck.expect(is_raised(got), "two points are no parabola", got=got)
    seen["quad"] += 1
    ck.traced()


def narrow(ck, ft, fit, rng, a, case):
    """Channels and counts of whole numbers, up to what their types hold: the type makes no difference."""
    tx, ty = ([np.uint8, np.int8, np.int16, np.uint16, np.int32, np.uint64][rng.randint(6)] for _ in range(2))
    n = len(a["y"])
    y = np.array(a["y"]) - min(a["y"]) + 1
    if y.max() > np.iinfo(ty).max:
        return
    y = (y * (min(np.iinfo(ty).max, 10**6) // y.max())).astype(ty)
    x = np.arange(n) + (min(np.iinfo(tx).max, 2000) - n if rng.randint(2) else 20)
    x = x.astype(tx)
    for f in (fit, ft.refine_quadratic, ft.refine_log_quadratic):
        got, want = ck.real(f, x, y), ck.real(f, x.astype(float), y.astype(float))
        ok = is_raised(got) == is_raised(want)
        if ok and not is_raised(got):
            ok = close(np.ravel(got[0]), np.ravel(want[0]), rtol=1e-6, atol=1e-6) and close(got[1], want[1], rtol=1e-6)
        ck.expect(ok, "the type of the numbers makes no difference", f=f.__name__, x=x, y=y, got=got, want=want)


def region(ck, sp, rng, a, ans, seen):
    s = float(rng.choice([0.5, 1, 0.25])) * unit(rng)
    x = np.array(a["x"]) * s
    if s == 1 and rng.randint(2):
        x = np.array(a["x"])
    y = arr(rng, a["y"])
    u = unit(rng) if y.dtype == float else 1
    y = y * u
    # positions far from zero
    far = [0, 0, 2**30, -2**30][rng.randint(4)]
    if x.dtype == float:
        far = far * s
    x = x + far
    mins, maxs = np.array(a["mins"]) * s + far, np.array(a["maxs"]) * s + far
    if a["slight"]:          # outside by the least amount there is
        mins = np.where(mins < x.min(), np.nextafter(x.min(), -np.inf), mins)
        maxs = np.where(maxs > x.max(), np.nextafter(x.max(), np.inf), maxs)
    if len(mins) == len(maxs) == 1 and rng.randint(2):
        mins, maxs = mins[0], maxs[0]
    elif rng.randint(2):
        mins, maxs = list(mins), list(maxs)
    case = dict(x=x, y=y, x_min=mins, x_max=maxs)
    calls = [("integral", sp.integrate_ROI, x)]
    if ans != ["refused"] or rng.randint(2):
        # edges whose centres are x: only for even spacing
        d = np.diff(a["x"])
        if a["edges"]:
            calls.append(("uneven", sp.integrate_ROI_spectrum, np.array(a["edges"]) * s + far))
        elif len(set(d)) == 1:
            edges = (np.append(a["x"], a["x"][-1] + d[0]) - d[0] / 2.0) * s + far
            calls.append(("spectrum", sp.integrate_ROI_spectrum, edges))
    lo, span = min(a["x"]), max(a["x"]) - min(a["x"])
    if not a["slight"] and 0 < span < 120 and len(a["mins"]) and min(a["mins"] + a["maxs"]) >= lo - 3:
        # channels of narrow types, up to what they hold
        for t, k, o in ((np.uint8, 1, 3), (np.uint64, 1, 3), (np.int8, 240 // span, -120)):
            xt, q = ((np.array(a["x"]) - lo) * k + o).astype(t), [((np.array(a[b]) - lo) * k + o).astype(int) for b in ("mins", "maxs")]
            got = ck.real(sp.integrate_ROI, xt, np.array(a["y"]), *q)
            if ans == ["refused"]:
                ck.expect(is_raised(got, "ValueError"), "bounds and data that make no sense are refused, whatever the type of the channels", got=got, channels=xt, bounds=q)
            else:
                ck.expect(not is_raised(got) and close(np.asarray(got) / k, ans[0] / 6.0, rtol=1e-7, atol=1e-6),
                          "the integral over the regions, whatever the type of the channels", got=got, want=ans[0] / 6.0 * k, channels=xt, y=a["y"], bounds=q)
    for name, f, xx in calls:
        if rng.randint(3) == 0:
            xx = list(xx)
        got = ck.real(f, xx, list(y) if rng.randint(4) == 0 else y, mins, maxs)
        if ans == ["refused"]:
            ck.expect(is_raised(got, "ValueError"), "bounds and data that make no sense are refused", f=name, got=got, **case)
            seen["refused"] += 1
        else:
            ck.expect(not is_raised(got) and close(np.asarray(got) / s / u, ans[0] / 6.0, rtol=1e-7, atol=1e-6),
                      "the integral over the regions", f=name, got=got, want=ans[0] / 6.0 * s, **case)
            seen[name] += 1
    ck.traced()


def gauss(ck, ft, sp, rng):
    """find_largest_peak on exact Gaussians, garbage outside the window."""
    for _ in range(ck.size(200, 3000)):
        n = int(rng.randint(5, 40))
        # positions in any unit, and far from the origin
        v = unit(rng)
        step = float(rng.choice([1, 0.1, 3])) * v
        x = float(rng.randint(-9, 9)) * v * float([1, 1, 2000, 2**17][rng.randint(4)]) + step * np.arange(n)
        j = int(rng.randint(0, n))
        centre = x[j] + step * (rng.uniform(-0.45, 0.45))
        sigma = step * rng.uniform(1.0, 6.0)
        top = rng.uniform(0.5, 1e4) * unit(rng)
        y = top * np.exp(-((x - centre) ** 2) / (2 * sigma**2)) + 0.0
        w = int(rng.randint(2, 8)) if rng.randint(3) else None
        y = np.maximum(y, 1e-250)
        if w is None and y.min() < 1e-200:
            continue
        if w is not None:
            out = np.abs(np.arange(n) - j) > w
            y[out] = y.max() * rng.uniform(0.01, 0.9, out.sum())
        got = ck.real(sp.find_largest_peak, x if rng.randint(2) else list(x), y if rng.randint(2) else list(y), *([] if w is None else [w]))
        ok = not is_raised(got) and len(got) == 3 and close((got[0] - centre) / step, 0, atol=1e-4) and close(got[1] / top, 1, rtol=1e-4) and close(got[2] / sigma, 1, rtol=1e-4)
        ck.expect(ok, "position, height and width of a Gaussian peak, from its window only", x=x, y=y, window=w, got=got, want=[centre, top, sigma])
        t = [np.uint8, np.int16, np.uint16, np.int32][rng.randint(4)]
        yi = np.maximum(y / y.max() * min(np.iinfo(t).max, 10**6), 1).astype(t)
        xi = (np.arange(n) + 200).astype([np.uint8, np.int16, np.int64][rng.randint(3)])
        got, want = (ck.real(sp.find_largest_peak, *q, *([] if w is None else [w])) for q in ((xi, yi), (xi.astype(float), yi.astype(float))))
        ok = is_raised(got) == is_raised(want) and (is_raised(got) or close(got, want, rtol=1e-6, atol=1e-6))
        ck.expect(ok, "whole counts and channels of any type", x=xi, y=yi, window=w, got=got, want=want)
        ck.traced()
    for _ in range(ck.size(40, 400)):
        k = int(rng.randint(1, 4))
        x = np.linspace(0, 50, 60)
        par = [(rng.uniform(10, 40), rng.uniform(5, 20)) for _ in range(k)]
        ys = [100 * np.exp(-((x - c) ** 2) / (2 * s * s)) for c, s in par]
        got = ck.real(sp.align_and_scale, [x] * k, ys)
        ok = not is_raised(got) and all(close(g, (x - c) * par[0][1] / s, rtol=1e-5, atol=1e-4) for g, (c, s) in zip(got[0], par))
        ck.expect(ok, "spectra are aligned on their own largest peak by default", peaks=par, got=got)
    for bad in (0, -1, -5):
        got = ck.real(ft.filter_n_largest, np.arange(5), np.array([1, 2]), bad)
        ck.expect(is_raised(got, "ValueError"), "a number of peaks that is not positive is refused", N=bad, got=got)
