"""S01: smoothing, logical image arithmetic, statistics in bins."""
import numpy as np

from common import amount, close, is_raised, nonvacuous, unit


def low(rng):
    half = int(rng.choice([1, 1, 2]))
    nr, nc = int(rng.randint(half + 1, 7)), int(rng.randint(half + 1, 7))
    if rng.randint(10) == 0:         # wide windows
        half = int(rng.randint(3, 7))
        nr, nc = half + int(rng.randint(1, 6)), half + int(rng.randint(1, 6))
    elif rng.randint(20) == 0:
        nr, nc = [(3, 40), (30, 4), (16, 17)][rng.randint(3)]
    order = int(rng.randint(0, 2))
    what = ["value", "col", "row"][rng.randint(3)] if order == 1 else "value"
    return dict(op="low", half=half, order=order, what=what, img=[[int(v) for v in rng.randint(0, 200, nc)] for _ in range(nr)])


def poly(rng):
    order = int(rng.randint(0, 4))
    half = int(rng.randint(max(1, (order + 1) // 2), 4 if rng.randint(6) else 8))
    if (2 * half + 1) <= order + 1:
        half += 1
    terms = [[int(rng.randint(-3, 4)), p, q] for p in range(order + 1) for q in range(order + 1 - p) if rng.randint(2)] or [[2, 0, 0]]
    return dict(op="poly", order=order, half=half, terms=terms, nr=2 * half + int(rng.randint(1, 5)), nc=2 * half + int(rng.randint(1, 5)),
                what=["value", "col", "row"][rng.randint(3)] if order else "value")


def stat(rng):
    n = int(rng.randint(1, 25)) if rng.randint(20) else int(rng.randint(200, 400))
    nx, w, lo = int(rng.randint(1, 7)), int(rng.randint(1, 5)), int(rng.randint(-10, 5))
    if n > 100:
        nx = int(rng.randint(1, 150))
    x = [int(v) for v in rng.randint(lo - 3, lo + nx * w + 4, n)]
    dflt = bool(rng.randint(3) == 0)
    if dflt:
        x += [lo, lo + nx * w]
        x = [min(max(v, lo), lo + nx * w) for v in x]
    return dict(op="stat", nx=nx, w=w, lo=lo, x=x, y=[int(v) for v in rng.randint(-9, 30, len(x))], dflt=dflt)


def logic(rng):
    n = int(rng.randint(1, 13))
    v = [0, 0, 1, 1, 2, -3, 255]
    return dict(op="logic", a=[v[rng.randint(7)] for _ in range(n)], b=[v[rng.randint(7)] for _ in range(n)])


def run(ck):
    from skbeam.core import arithmetic as ar
    from skbeam.core import stats
    from skbeam.core.smoothing import sgolay2d

    rng = ck.np_rng
    n = ck.size(150, 2500)
    cases = [low(rng) for _ in range(n)] + [poly(rng) for _ in range(n)] + [stat(rng) for _ in range(n)] + [logic(rng) for _ in range(n)]
    r = ck.tlc("Smooth", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Apart Once Report\nCONSTANTS Cases <- CasesDef\n",
               data=cases, defs="CasesDef == Data", workers=4)
    nonvacuous(len(r.out) == len(cases), "an answer per case")
    for e in sorted(r.out, key=lambda e: e["case"]):
        a = cases[e["case"] - 1]
        ans = e["ans"]
        if a["op"] in ("low", "poly"):
            smooth(ck, sgolay2d, rng, a, ans)
        elif a["op"] == "stat":
            binned(ck, stats, rng, a, ans)
        else:
            logical(ck, ar, rng, a, ans)
        ck.traced()
    for bad in (2, 4, 6):
        got = ck.real(sgolay2d, np.ones((9, 9)), bad, 1)
        ck.expect(is_raised(got, "ValueError"), "a window without a middle is refused", window=bad, got=got)
    for w, o in ((3, 3), (3, 4), (5, 6)):
        got = ck.real(sgolay2d, np.ones((9, 9)), w, o)
        ck.expect(is_raised(got, "ValueError"), "an order too high for the window is refused", window=w, order=o, got=got)


def smooth(ck, sgolay2d, rng, a, ans):
    win, h = 2 * a["half"] + 1, a["half"]
    if a["op"] == "low":
        img = np.array(a["img"], dtype=[float, int, np.uint8, np.uint16, np.int32, np.float32][rng.randint(6)])
        want = np.array([[v[0] / v[1] for v in row] for row in ans])
        sel = np.s_[:, :]
    else:
        img = np.array([[v[0] for v in row] for row in ans], dtype=[float, int][rng.randint(2)])
        want = np.array([[v[1] for v in row] for row in ans], dtype=float)
        sel = np.s_[h:img.shape[0] - h, h:img.shape[1] - h]
    u = amount(rng) if img.dtype == float else unit(rng) if img.dtype == np.float32 else 1
    img, want = (img * u).astype(img.dtype), want * u
    if rng.randint(3) == 0:
        img = np.asfortranarray(img)
    keep = img.copy()
    tol = 1e-10 * (u + np.abs(img.astype(float)).max())
    case = dict(image=img, window=win, order=a["order"], derivative=a["what"])
    got = ck.real(sgolay2d, img, win, a["order"], *([] if a["what"] == "value" else [a["what"]]))
    ok = not is_raised(got) and np.shape(got) == img.shape and close(got[sel], want[sel], rtol=1e-9, atol=tol)
    ck.expect(ok, "each pixel is the fitted value or slope of its window" if a["op"] == "low" else "a polynomial of the order is reproduced, and its slopes",
              got=got, want=want, **case)
    if a["order"] and rng.randint(2):
        both = ck.real(sgolay2d, img, win, a["order"], "both")
        one = ck.real(sgolay2d, img, win, a["order"], "row"), ck.real(sgolay2d, img, win, a["order"], "col")
        ck.expect(not is_raised(both) and len(both) == 2 and close(both[0], one[0], atol=tol) and close(both[1], one[1], atol=tol), "both slopes are the two slopes",
                  got=both, want=one, **case)
    # smoothing commutes with a scale factor and keeps the mean level
    ck.expect(np.array_equal(img, keep), "the image is left alone", **case)


def binned(ck, stats, rng, a, ans):
    s = float(rng.choice([1, 0.5, 0.25, 2])) * unit(rng)
    x = np.array(a["x"], dtype=float) * s
    if s == 1 and rng.randint(2):
        x = np.array(a["x"])
    y = np.array(a["y"], dtype=[float, int][rng.randint(2)])
    u = unit(rng) if y.dtype == float else 1
    y = y * u
    lo, hi = a["lo"] * s, (a["lo"] + a["nx"] * a["w"]) * s
    cnt = np.array([v[0] for v in ans])
    tot = np.array([v[1] for v in ans], dtype=float) * u
    name = ["mean", "sum", "count", "max", "min", "func", None][rng.randint(7)]
    with np.errstate(all="ignore"):
        want = {"mean": tot / np.where(cnt == 0, np.nan, cnt), "sum": tot, "count": cnt}.get(name or "mean")
    if name in ("max", "min"):
        want = np.array([np.nan if v[0] == 0 else v[2 if name == "max" else 3] * u for v in ans], dtype=float)
    kw = {} if name is None else dict(stat={"func": lambda v: float(len(v)) * 2, "max": np.max if 0 else "max", "min": "min"}.get(name, name))
    if name == "func":
        want = cnt * 2.0
    if a["dflt"]:
        if rng.randint(2):
            kw["min_x"] = lo
        if rng.randint(2):
            kw["max_x"] = hi
    else:
        kw.update(min_x=lo, max_x=hi)
    kw["nx"] = a["nx"]
    if rng.randint(8) == 0:
        k2 = {k: v for k, v in kw.items() if k != "nx"}
        got, same = ck.real(stats.statistics_1D, x, y, **k2), ck.real(stats.statistics_1D, x, y, nx=100, **k2)
        ck.expect(not is_raised(got) and len(got[0]) == 101 and close(got[0] / s, same[0] / s) and close(got[1] / u, same[1] / u), "a hundred bins unless said otherwise", x=x, y=y, got=got)
    got = ck.real(stats.statistics_1D, x, y, **kw)
    w = 1 if name in ("count", "func") else u
    ok = not is_raised(got) and len(got) == 2 and close(np.asarray(got[0]) / s, np.linspace(lo, hi, a["nx"] + 1) / s) and close(np.asarray(got[1]) / w, want / w)
    ck.expect(ok, "the statistic of exactly the points of each bin", x=x, y=y, kw={k: str(v) for k, v in kw.items()}, got=got, want=want)


def logical(ck, ar, rng, a, ans):
    n = len(a["a"])
    shape = (n,) if n % 2 or rng.randint(2) else (2, n // 2)
    types = [int, float, np.int16]
    x, y = (np.array(v, dtype=types[rng.randint(3)]).reshape(shape) for v in (a["a"], a["b"]))
    if rng.randint(2):
        x, y = x != 0, y != 0
    for name in ("nand", "nor", "sub"):
        f = getattr(ar, "logical_" + name)
        want = np.array(ans[name]).reshape(shape)
        got = ck.real(f, x if rng.randint(2) else x.tolist(), y if rng.randint(2) else y.tolist())
        ck.expect(not is_raised(got) and np.array_equal(got, want) and np.asarray(got).dtype == bool, "truth table of %s" % name, a=x, b=y, got=got, want=want)
        out = np.array(rng.randint(0, 2, shape), dtype=bool)
        got = ck.as_given(f, ck.layout(x), ck.layout(y), out)
        ck.expect(not is_raised(got) and np.array_equal(got, want) and np.array_equal(out, want), "%s into an array" % name, a=x, b=y, got=got, out=out, want=want)
        if x.dtype == bool:
            for k in (0, 1):
                xy = [x.copy(), y.copy()]
                got = ck.as_given(f, xy[0], xy[1], xy[k])
                ck.expect(not is_raised(got) and np.array_equal(got, want) and np.array_equal(xy[k], want) and np.array_equal(xy[1 - k], [x, y][1 - k]),
                          "%s into one of its arguments" % name, a=x, b=y, got=got, want=want)
