"""P01: iterative phase retrieval."""
import numpy as np
from scipy import ndimage

from common import close, is_raised, nonvacuous, same_ints, unit


def cclose(a, b, rtol=1e-6, atol=1e-8, u=1.0):
    a, b = np.asarray(a) / u, np.asarray(b) / u
    if a.shape != b.shape:
        return False
    s = max(1.0, float(np.abs(b).max())) if b.size else 1.0
    return bool(np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= rtol * np.abs(b) + atol * s))


def modulus(x, pat):
    """Measured amplitudes with the phases of x; unmeasured pixels as they are."""
    f = np.fft.fftn(x) / np.sqrt(x.size)
    m = pat > 0
    f[m] = pat[m] * np.exp(1j * np.angle(f[m]))
    return np.fft.ifftn(f) * np.sqrt(x.size)


def step(x, pat, inside, beta, real):
    """One iteration of the difference map, from its definition."""
    pm = (lambda v: np.abs(modulus(v, pat))) if real else (lambda v: modulus(v, pat))
    fa = (1 + 1 / beta) * pm(x) - x / beta
    fb = (1 - 1 / beta) * np.where(inside, x, 0) + x / beta
    return x + beta * (np.where(inside, fa, 0) - pm(fb))


def support(x, sigma, thr):
    b = ndimage.gaussian_filter(np.abs(x), sigma)
    near = np.abs(b - thr * b.max()) < 1e-9 * b.max()
    return b >= thr * b.max(), bool(near.any())


def follow(log, cen, start, sup, beta, real, sigma, thr):
    x, inside = start.copy(), np.asarray(sup) == 1
    xs, oe, de, se, ambiguous = [], [], [], np.zeros(len(log)), False
    for n, st in enumerate(log):
        y = step(x, cen, inside, beta, real)
        oe.append(np.linalg.norm(y - x) / np.linalg.norm(x))
        de.append(np.linalg.norm(np.abs(np.fft.fftn(y)) / np.sqrt(y.size) - cen) / np.linalg.norm(cen))
        x = y
        xs.append(x)
        if st["refine"]:
            inside, amb = support(x, sigma, thr)
            ambiguous = ambiguous or amb
            se[n] = inside.sum()
    return xs, oe, de, se, ambiguous


def rand_case(rng):
    lo = int(rng.randint(0, 9))
    return dict(total=int(rng.choice([1, 2, 3, 5, 8, 9, 12, 16])), sw=bool(rng.randint(4)), avg=int(rng.choice([0, 3, 6, 7, 8])),
                to=int(rng.randint(lo, 9)), step=int(rng.randint(1, 5)), cb=int(rng.choice([0, 1, 1, 2, 3, 5])), **{"from": lo})


def run(ck):
    from skbeam.core import cdi

    rng = ck.np_rng
    cases = [rand_case(rng) for _ in range(ck.size(160, 2500))]
    cases[0].update(dict(total=5, avg=6, cb=2))
    cases[1].update(dict(total=8, avg=8, cb=3))
    r = ck.tlc("Cdi", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Support Calls Silent LastOnes Frozen Report\n"
               "CONSTANTS Cases <- CasesDef\n", data=cases, defs="CasesDef == Data", workers=4)
    logs = {e["case"]: e["log"] for e in r.out}
    nonvacuous(len(logs) == len(cases), "one schedule per case")
    seen = dict(refine=0, none=0, odd=0, real=0, gap=0, used=0)
    shapes = [(6, 8), (7, 5), (4, 4), (5, 6, 3), (9,), (4, 3, 2), (8, 7), (12,)]
    for k, cs in enumerate(cases):
        log = logs[k + 1]
        shape = shapes[rng.randint(len(shapes))]
        seen["odd"] += any(d % 2 for d in shape)
        pat = rng.uniform(0.2, 3, shape)
        if rng.randint(3) == 0:
            pat[rng.rand(*shape) < 0.2] = 0
            seen["gap"] += bool((pat == 0).any())
        if rng.randint(5) == 0:
            pat = np.round(pat * 2 + 1).astype(int)
        start = rng.normal(size=shape) + 1j * rng.normal(size=shape)
        # amplitudes in any unit in which the documented offset, 1e-12, is nothing
        u = max(1.0, unit(rng)) if pat.dtype == float else 1.0
        pat, start = pat * u if u != 1 else pat, start * u
        sup = (rng.rand(*shape) < 0.6).astype(float)
        if rng.randint(5) == 0:
            sup = sup.astype(bool)
        beta = float(rng.choice([1.15, 1.0, 0.7, 0.9]))
        sigma, thr = float(rng.choice([0.5, 0.5, 0.4, 1.0])), float(rng.choice([0.1, 0.1, 0.3, 0.6]))
        real = rng.randint(3) == 0
        flag = ["complex", "Complex", "COMPLEX"][rng.randint(3)] if not real else ["real", "Real", "REAL"][rng.randint(3)]
        seen["real"] += real
        # what the schedule prescribes, carried out step by step; twice, to tell runs
        # that are too sensitive to rounding to be compared
        cen = np.fft.ifftshift(pat)
        xs, oe, de, se, amb = follow(log, cen, start, sup, beta, real, sigma, thr)
        nudged = follow(log, cen, start * (1 + 1e-10 * rng.normal(size=shape)), sup, beta, real, sigma, thr)
        if amb or not np.array_equal(se, nudged[3]) or not cclose(xs[-1], nudged[0][-1], 1e-7, 1e-7, u):
            continue
        seen["used"] += 1
        avg = [x for x, st in zip(xs, log) if st["avg"]] or xs[-1:]
        seen["none"] += not any(st["avg"] for st in log)
        seen["refine"] += bool(se.any())
        calls = []
        mine = start.copy()
        pat0, sup0 = pat.copy(), sup.copy()
        kw = dict(beta=beta, start_avg=cs["avg"] / 8.0, pi_modulus_flag=flag, sw_flag=cs["sw"], sw_sigma=sigma, sw_threshold=thr,
                  sw_start=cs["from"] / 8.0, sw_end=cs["to"] / 8.0, sw_step=cs["step"], n_iterations=cs["total"])
        if cs["cb"]:
            kw["cb_function"] = lambda *a: calls.append([np.array(v) for v in a])
            kw["cb_step"] = cs["cb"]
        # what is as documented need not be said
        for key, v in dict(beta=1.15, sw_flag=True, sw_sigma=0.5, sw_threshold=0.1).items():
            if kw[key] == v and rng.randint(2):
                del kw[key]
        got = ck.real(cdi.cdi_recon, pat, mine, sup, **kw)
        info = dict(case=cs, shape=shape, pattern=pat, start=start, support=sup, beta=beta, flag=flag, sigma=sigma, threshold=thr)
        if is_raised(got) or len(got) != 2:
            ck.fail("cdi_recon: reconstructions run through", got=got, **info)
            continue
        obj, err = got
        ck.expect(cclose(obj, np.mean(avg, axis=0), u=u), "cdi_recon: the mean of the difference-map iterates after start_avg",
                  got=obj, want=np.mean(avg, axis=0), **info)
        ck.expect(sorted(err) == ["diff_error", "obj_error", "sup_error"] and close(err["obj_error"], oe, 1e-7, 1e-9)
                  and close(err["diff_error"], de, 1e-7, 1e-9), "cdi_recon: relative change and misfit of every iteration",
                  got=err, want=[oe, de], **info)
        ck.expect(same_ints(err.get("sup_error"), se), "cdi_recon: the support is refined on schedule", got=err.get("sup_error"), want=se, **info)
        due = [n for n, st in enumerate(log) if st["call"]]
        ok = len(calls) == len(due) and all(
            len(a) == 4 and cclose(a[0], xs[n], u=u) and close(a[1][:n + 1], oe[:n + 1], 1e-5, 1e-7) and close(a[2][:n + 1], de[:n + 1], 1e-5, 1e-7)
            and same_ints(a[3][:n + 1], se[:n + 1]) for a, n in zip(calls, due))
        ck.expect(ok, "cdi_recon: calls back after every cb_step iterations with the state reached", calls=len(calls), due=due, **info)
        ck.expect(np.array_equal(mine, start) and np.array_equal(pat, pat0) and np.array_equal(sup, sup0),
                  "cdi_recon: leaves its arguments alone", **info)
        ck.traced()
        ck.sample(case=cs, log=log[:4])
    for key, v in seen.items():
        nonvacuous(v > 3, key)
    nonvacuous(seen["used"] > len(cases) // 2, "runs that can be compared: %d" % seen["used"])
    # the true object is a solution, whatever the shape
    for shape in [(8, 8), (9, 9), (7, 10), (5, 4, 7), (11,)]:
        for real in (False, True):
            obj = np.zeros(shape, complex)
            c0 = tuple(slice(d // 2 - 1, d // 2 + 2) for d in shape)
            obj[c0] = rng.uniform(1, 2, obj[c0].shape) * (1 if real else np.exp(1j * rng.uniform(-1, 1, obj[c0].shape)))
            pat = np.fft.fftshift(np.abs(np.fft.fftn(obj))) / np.sqrt(obj.size)
            got = ck.real(cdi.cdi_recon, pat, obj.copy(), (np.abs(obj) > 0).astype(float), n_iterations=12, sw_flag=bool(rng.randint(2)),
                          sw_step=3, sw_sigma=0.0001, pi_modulus_flag="real" if real else "complex")
            ok = not is_raised(got) and cclose(got[0], obj, atol=1e-6) and got[1]["diff_error"].max() < 1e-6 and got[1]["obj_error"].max() < 1e-6
            ck.expect(ok, "cdi_recon: an object that fits pattern and support stays", shape=shape, real=real, got=got)
    got = ck.real(cdi.cdi_recon, np.ones((4, 4)), np.ones((4, 4), complex), np.ones((4, 4)), n_iterations=2, pi_modulus_flag="imag")
    ck.expect(is_raised(got, "ValueError"), "cdi_recon: unknown kinds of projection are refused", got=got)
    # what is not given is as documented
    pat, start, sup = rng.uniform(0.2, 3, (5, 6)), rng.normal(size=(5, 6)) + 1j * rng.normal(size=(5, 6)), np.ones((5, 6))
    doc = dict(beta=1.15, start_avg=0.8, pi_modulus_flag="Complex", sw_flag=True, sw_sigma=0.5, sw_threshold=0.1, sw_start=0.2, sw_end=0.8,
               sw_step=10, n_iterations=1000, cb_step=10)
    # a run of a thousand steps forgets how it began but for rounding, so it is compared with itself
    its, n1, n2 = [], [], []
    a = ck.real(cdi.cdi_recon, pat, start.copy(), sup, cb_function=lambda x, *v: its.append(np.array(x)), cb_step=1)
    b = ck.real(cdi.cdi_recon, pat, start.copy(), sup, cb_function=lambda *v: n1.append(1), **dict(doc, n_iterations=35))
    c = ck.real(cdi.cdi_recon, pat, start.copy(), sup, cb_function=lambda *v: n2.append(1), n_iterations=35)
    ok = not is_raised(a) and not is_raised(b) and not is_raised(c) and len(its) == 1000 and len(n1) == 3 and len(n2) == 3
    ok = ok and cclose(a[0], np.mean(its[801:], axis=0)) and len(a[1]["obj_error"]) == 1000
    if ok:
        for key in ("obj_error", "diff_error"):
            ok = ok and close(b[1][key][:11], c[1][key][:11], 1e-6, 1e-7) and close(a[1][key][:11], c[1][key][:11], 1e-6, 1e-7)
        for n, s in enumerate(a[1]["sup_error"]):
            if n % 10 or not 200 <= n <= 800:
                ok = ok and s == 0
                continue
            f = ndimage.gaussian_filter(np.abs(its[n]), 0.5)
            least, most = [int((f >= 0.1 * f.max() * (1 + e)).sum()) for e in (1e-9, -1e-9)]
            ok = ok and least <= s <= most
    ck.expect(ok, "cdi_recon: the defaults are the documented ones", got=a, calls=[len(its), len(n1), len(n2)])
    parts(ck, cdi, rng)
    supports(ck, cdi, rng)


def parts(ck, cdi, rng):
    for _ in range(ck.size(60, 600)):
        shape = tuple(int(v) for v in rng.randint(1, 8, rng.randint(1, 4)))
        x = rng.normal(size=shape) + 1j * rng.normal(size=shape)
        if rng.randint(3) == 0:
            x = x.real
        pat = rng.uniform(0.1, 3, shape)
        pat[rng.rand(*shape) < 0.2] = 0
        if rng.randint(3) == 0:  # bright and faint in one pattern
            pat = pat * 10.0 ** rng.choice([0, -7], shape)
        x0, p0 = x.copy(), pat.copy()
        got = ck.real(cdi.pi_modulus, x, pat)
        ck.expect(not is_raised(got) and cclose(got, modulus(x, pat)), "pi_modulus: measured amplitudes, phases kept",
                  x=x, pattern=pat, got=got)
        # however faint the pattern
        tiny, p1 = 10.0 ** -rng.randint(5, 60), np.maximum(pat, 0.1)
        got = ck.real(cdi.pi_modulus, x, p1 * tiny)
        ck.expect(not is_raised(got) and cclose(np.asarray(got) / tiny, modulus(x, p1)), "pi_modulus: measured amplitudes, however small",
                  x=x, pattern=p1 * tiny, got=got)
        u = unit(rng)
        got = ck.real(cdi.cal_diff_error, x * u, np.maximum(pat, 0.1) * u)
        f = np.abs(np.fft.fftn(x)) / np.sqrt(x.size)
        p1 = np.maximum(pat, 0.1)
        ck.expect(close(got, np.sqrt(((f - p1) ** 2).sum() / (p1**2).sum())), "cal_diff_error: relative distance of the amplitudes", got=got)
        sig, thr = float(rng.uniform(0.2, 2)), float(rng.uniform(0.05, 0.95))
        want, amb = support(x, sig, thr)
        got = ck.real(cdi.find_support, x * u, sig, thr)
        ck.expect(amb or (not is_raised(got) and np.array_equal(np.asarray(got), want)),
                  "find_support: pixels above a fraction of the smoothed maximum", x=x, sigma=sig, threshold=thr, got=got)
        got = ck.real(cdi.generate_random_phase_field, pat * u)
        ok = not is_raised(got) and got.shape == shape and cclose(np.abs(np.fft.fftn(got)) / np.sqrt(got.size), pat * u, u=u)
        ck.expect(ok, "generate_random_phase_field: an object with the measured amplitudes", pattern=pat, got=got)
        ck.expect(np.array_equal(x, x0) and np.array_equal(pat, p0), "cdi: arguments are left alone", x=x)
        ck.traced()
    a, b = (cdi.generate_random_phase_field(np.ones((6, 6))) for _ in range(2))
    ck.expect(not np.allclose(a, b), "generate_random_phase_field: fields differ")
    got = ck.real(cdi.generate_random_phase_field, np.ones((64, 64)))
    ph = np.angle(np.fft.fftn(got)) if not is_raised(got) else np.zeros(4096)
    n = np.histogram(ph, np.linspace(-np.pi, np.pi, 9))[0]
    # 512 each on average; 10 standard deviations
    ck.expect(n.min() > 300 and n.max() < 725, "generate_random_phase_field: phases of all directions", counts=n)


def supports(ck, cdi, rng):
    shapes = [[7], [8], [1], [5, 6], [4, 4], [3, 9], [1, 5], [3, 4, 5], [4, 4, 4], [301], [3, 270], [34, 21]]
    r = ck.tlc("CdiSupport", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Inside Grow Report\nCONSTANTS Shapes <- ShapesDef\n  Radii <- RadiiDef\n",
               data=shapes, defs="ShapesDef == Data\nRadiiDef == 0 .. 20 \\cup {41, 96, 250, 523, 700}")
    nonvacuous(len(r.out) == 26 * len(shapes), "supports")
    for e in r.out:
        shape = shapes[e["s"] - 1]
        rad = e["r4"] / 4.0
        if e["r4"] % 4 == 0 and rng.randint(2):
            rad = e["r4"] // 4
        arg = tuple(shape) if rng.randint(2) else list(shape)
        for fn, cells in ((cdi.generate_box_support, e["box"]), (cdi.generate_disk_support, e["disk"])):
            want = np.zeros(shape)
            for p in cells:
                want[tuple(p)] = 1
            got = ck.real(fn, rad, arg)
            ck.expect(not is_raised(got) and same_ints(got, want), fn.__name__ + ": pixels within the radius of the centre",
                      radius=rad, shape=shape, got=got, want=want)
        d2 = np.zeros(shape)
        for p, v in e["sq"]:
            d2[tuple(p)] = v
        got = ck.real(cdi._dist, arg)
        ck.expect(not is_raised(got) and close(got, np.sqrt(d2)), "_dist: distance from the centre", shape=shape, got=got)
        if rad:
            g = np.exp(-d2 / (2.0 * rad * rad))
            got = ck.real(cdi.gauss, arg, rad)
            ck.expect(not is_raised(got) and close(got, g / g.sum()), "gauss: normalised Gaussian about the centre", shape=shape, sigma=rad, got=got)
        ck.traced()
