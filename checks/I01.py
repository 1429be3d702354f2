"""I01: images from radial and polar averages; centre of symmetric images."""
import numpy as np

from common import amount, close, is_raised, nonvacuous, unit


def base(rng, op):
    return dict(op=op, rows=int(rng.randint(1, 8)), cols=int(rng.randint(1, 8)), cx=int(rng.randint(-2, 14)), cy=int(rng.randint(-2, 14)),
                px=int(rng.choice([1, 1, 2, 3, 4])), py=int(rng.choice([1, 1, 2, 3, 4])))


def circ(rng):
    a = base(rng, "circ")
    n = int(rng.randint(1, 6))
    a["radii"] = sorted(int(v) for v in rng.choice(30, n, replace=False))
    a["vals"] = [int(v) for v in rng.randint(-5, 20, n)]
    a["left"] = [] if rng.randint(2) else [int(rng.randint(-9, 9))]
    a["right"] = [] if rng.randint(3) == 0 else [int(rng.randint(-9, 9)) if rng.randint(2) else 0]
    return a


def polar(rng):
    a = base(rng, "polar")
    if rng.randint(2):
        a["cx"] = 2 * int(rng.randint(0, a["cols"]))
        a["cy"] = 2 * int(rng.randint(0, a["rows"]))
    n = int(rng.randint(2, 5))
    a["radii"] = sorted(int(v) for v in rng.choice(24, n, replace=False))
    m = int(rng.randint(2, 8))
    start = int(rng.randint(-30, 30)) * int(rng.choice([1, 1, 5]))
    steps = sorted(int(v) for v in rng.choice(np.arange(1, 24), m - 1, replace=False))
    a["angles"] = [start] + [start + s for s in steps]
    a["img"] = [[int(v) for v in rng.randint(0, 30, m)] for _ in range(n)]
    a["masked"] = bool(rng.randint(2))
    a["mask"] = [[int(rng.randint(5) > 0) if a["masked"] else 1 for _ in range(m)] for _ in range(n)]
    return a


def centre(rng):
    rows, cols = int(rng.randint(5, 12)), int(rng.randint(5, 12))
    r, k = int(rng.randint(1, rows - 1)), int(rng.randint(1, cols - 1))
    # nearly separable: every line is a multiple of the same mirrored profile
    u, w = (np.where(np.arange(14) < rng.randint(2, 6), rng.choice([1, 2, 5, 9], 14), rng.choice([1, 0, 0], 14)) for _ in range(2))
    if rng.randint(4) == 0:        # a mirror on the edge: only a bright edge shows it
        r, k = [r, 0, rows - 1][rng.randint(3)], [0, cols - 1][rng.randint(2)]
        u[0] = w[0] = 12
    q = np.outer(u, w) + (rng.randint(0, 4, (14, 14)) if rng.randint(2) else 0) + np.where(rng.randint(6, size=(14, 14)) == 0, 9, 0)
    img = [[int(q[abs(i - r), abs(j - k)]) for j in range(cols)] for i in range(rows)]
    # what has no mirror partner in the image may be empty; TLC decides which images have a clear mirror
    for i in range(rows) if rng.randint(3) == 0 else []:
        for j in range(cols):
            if not (0 <= 2 * r - i < rows and 0 <= 2 * k - j < cols):
                img[i][j] = 0
    return dict(op="centre", img=img, row=r, col=k)


def wide(rng):
    """A long line of pixels: TLC decides whether its mirror is clear."""
    n, k = int(rng.randint(265, 300)), int(rng.randint(120, 240))
    u = np.where(np.arange(300) < 12, rng.randint(0, 9, 300), rng.randint(0, 2, 300))
    u[0] = 60
    img = [[int(u[abs(j - k)]) * (3 if i == 1 else 1) for j in range(n)] for i in range(3)]
    if rng.randint(2):
        return dict(op="centre", img=img, row=1, col=k)
    return dict(op="centre", img=[list(r) for r in zip(*img)], row=k, col=1)


def everywhere(a, s, px, center, dims):
    """The definitions of Polar.tla in floating point, for the pixels that are not exact there."""
    out = {}
    radii = np.array(a["radii"], dtype=float) * s
    for i in range(dims[0]):
        for j in range(dims[1]):
            dy, dx = (i - center[0]) * px[0], (j - center[1]) * px[1]
            r, phi = np.hypot(dx, dy), np.arctan2(dy, dx)
            if min(abs(r - radii)) < 1e-6 * s:
                continue
            if a["op"] == "circ":
                out[i, j] = np.interp(r, radii, a["vals"], left=a["left"][0] if a["left"] else None, right=a["right"][0] if a["right"] else None)
                continue
            if r < radii[0] or r > radii[-1]:
                out[i, j] = np.nan
                continue
            m = int(np.searchsorted(radii, r)) - 1
            tr = (r - radii[m]) / (radii[m + 1] - radii[m])
            ang = np.array(a["angles"], dtype=float) * (2 * np.pi / 24)
            k = int(np.argmin((phi - ang) % (2 * np.pi)))
            nx = (k + 1) % len(ang)
            ta = ((phi - ang[k]) % (2 * np.pi)) / ((ang[nx] - ang[k]) % (2 * np.pi))
            if ta < 1e-6 or ta > 1 - 1e-6:
                continue
            four = [(m, k, (1 - tr) * (1 - ta)), (m + 1, k, tr * (1 - ta)), (m, nx, (1 - tr) * ta), (m + 1, nx, tr * ta)]
            out[i, j] = sum(w * (a["img"][p][q] if a["mask"][p][q] else np.nan) for p, q, w in four)
    return out


def run(ck):
    from skbeam.core import image as im

    rng = ck.np_rng
    n = ck.size(260, 3000)
    cases = [circ(rng) for _ in range(n)] + [polar(rng) for _ in range(n)] + [centre(rng) for _ in range(4 * n)] + [wide(rng) for _ in range(ck.size(2, 12))]
    r = ck.tlc("Polar", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Bounded Report\nCONSTANTS Cases <- CasesDef\n",
               data=cases, defs="CasesDef == Data", workers=4)
    nonvacuous(len(r.out) == len(cases), "one answer per case")
    seen = dict(circ=0, polar=0, nan=0, centre=0, edge=0, free=0, wide=0)
    for e in sorted(r.out, key=lambda e: e["case"]):
        a = cases[e["case"] - 1]
        if a["op"] == "centre":
            if not e["ans"][0]:
                continue
            seen["centre"] += 1
            seen["wide"] += max(np.shape(a["img"])) > 256
            seen["edge"] += a["col"] in (0, len(a["img"][0]) - 1) or a["row"] in (0, len(a["img"]) - 1)
            img = np.array(a["img"], dtype=[float, int][rng.randint(2)]) * [1, 3][rng.randint(2)]
            if img.dtype == float:
                img = img * unit(rng)
            # detector counts up to what their type holds
            t = [np.uint8, np.int8, np.int16, np.uint16, np.int32][rng.randint(5)]
            if rng.randint(2) and 0 < np.max(a["img"]) <= np.iinfo(t).max:
                img = (np.array(a["img"]) * (np.iinfo(t).max // np.max(a["img"]))).astype(t)
            if rng.randint(2):
                img = np.asfortranarray(img)
            got = ck.real(im.find_ring_center_acorr_1D, img)
            ok = not is_raised(got) and len(got) == 2 and tuple(map(float, got)) == (a["row"], a["col"])
            ck.expect(ok, "the centre of a mirror-symmetric image", image=img, got=got, want=[a["row"], a["col"]])
            ck.traced()
            continue
        s = [0.5, 0.05, 1.0, 3.7, 2.0**-30, 2.0**20][rng.randint(6)]        # unit of length; model lengths are doubled
        center = (a["cy"] / 2.0, a["cx"] / 2.0)
        dims = (a["rows"], a["cols"])
        px = (a["py"] * 2 * s, a["px"] * 2 * s)
        radii = np.array(a["radii"], dtype=float) * s
        if a["op"] == "circ":
            vals = np.array(a["vals"], dtype=[float, int][rng.randint(2)])
            u = unit(rng) if vals.dtype == float else 1
            vals = vals * u
            kw = dict(dims=dims, center=center, pixel_size=px)
            if a["left"] != [] or rng.randint(2):
                kw["left"] = None if a["left"] == [] else a["left"][0] * u
            if a["right"] != [0] or rng.randint(2):
                kw["right"] = None if a["right"] == [] else a["right"][0] * u
            keep = radii.copy(), vals.copy()
            got = ck.real(im.construct_circ_avg_image, radii, vals, **kw)
            case = dict(radii=radii, vals=vals, kw=kw)
            if is_raised(got) or np.shape(got) != dims:
                ck.fail("an image is made from a radial average", got=got, **case)
                continue
            got = np.asarray(got) / u
            for i, j, w in e["ans"]:
                # the ends are on the border in floating point
                if (a["left"] != [] or a["right"] != []) and s in (0.05, 3.7):
                    rr = np.hypot((i - 1 - center[0]) * px[0], (j - 1 - center[1]) * px[1])
                    if min(abs(rr - radii[0]), abs(rr - radii[-1])) < 1e-9 * s:
                        continue
                if not ck.expect(close(got[i - 1, j - 1], w[0] / w[1]), "a pixel has the radial average at its distance",
                                 pixel=[i - 1, j - 1], got=got, want=w, **case):
                    break
                seen["circ"] += 1
            free = everywhere(a, s, px, center, dims)
            ck.expect(all(close(got[k], v, rtol=1e-8, atol=1e-8) for k, v in free.items()), "every pixel has the radial average at its distance", got=got, want=free, **case)
            ck.expect(np.array_equal(radii, keep[0]) and np.array_equal(vals, keep[1]), "arguments are left alone", **case)
        else:
            angles = np.array(a["angles"], dtype=float) * (2 * np.pi / 24)
            img = np.array(a["img"], dtype=[float, int][rng.randint(2)])
            u = amount(rng) if img.dtype == float else 1
            img = img * u
            mask = None
            if a["masked"]:
                mask = np.array(a["mask"], dtype=[int, bool, float, np.uint8][rng.randint(4)])
                if mask.dtype == np.uint8:
                    mask = mask * np.uint8(255)
            keep = radii.copy(), angles.copy(), img.copy()
            case = dict(radii=radii, angles=angles, image=img, mask=mask, center=center, shape=dims, pixel_size=px)
            got = ck.real(im.construct_rphi_avg_image, radii, angles, img, mask=mask, center=center, shape=dims, pixel_size=px)
            if is_raised(got) or np.shape(got) != dims:
                ck.fail("an image is made from a polar average", got=got, **case)
                continue
            got = np.asarray(got) / u
            for i, j, w in e["ans"]:
                if w == ["skip"]:
                    continue
                rr = np.hypot((i - 1 - center[0]) * px[0], (j - 1 - center[1]) * px[1])
                if s in (0.05, 3.7) and min(abs(rr - radii)) < 1e-9 * s:
                    continue       # on the border in floating point
                if w == ["nan"]:
                    # a corner reached with no weight but for rounding
                    ok = np.isnan(got[i - 1, j - 1])
                    seen["nan"] += 1
                else:
                    ok = close(got[i - 1, j - 1], w[0] / w[1], rtol=1e-8, atol=1e-8)
                    if mask is not None and np.isnan(got[i - 1, j - 1]) and not a["mask"] == [[1] * len(angles)] * len(radii):
                        # rounding may reach a masked neighbour across an exact hit
                        ok = ok or any(abs((np.arctan2((i - 1 - center[0]) * px[0], (j - 1 - center[1]) * px[1]) - t) % (2 * np.pi)) < 1e-9
                                       or abs((np.arctan2((i - 1 - center[0]) * px[0], (j - 1 - center[1]) * px[1]) - t) % (2 * np.pi) - 2 * np.pi) < 1e-9
                                       for t in angles)
                    seen["polar"] += 1
                if not ck.expect(ok, "a pixel has the polar average at its distance and direction", pixel=[i - 1, j - 1], got=got, want=w, **case):
                    break
            free = everywhere(a, s, px, center, dims)
            seen["free"] += len(free)
            ck.expect(all(close(got[k], v, rtol=1e-8, atol=1e-8) for k, v in free.items()), "every pixel has the polar average at its distance and direction", got=got, want=free, **case)
            ck.expect(np.array_equal(radii, keep[0]) and np.array_equal(angles, keep[1]) and np.array_equal(img, keep[2]),
                      "arguments are left alone", **case)
        ck.traced()
        ck.sample(case={k: a[k] for k in ("op", "radii", "rows", "cols")}, pixels=len(e["ans"]))
    for k, v in seen.items():
        nonvacuous(v > {"centre": 12, "edge": 12, "wide": 0}.get(k, 30), "%s: only %d" % (k, v))
    defaults(ck, im, rng)


def defaults(ck, im, rng):
    """Default size and centre: the farthest radius just fits, centre in the middle."""
    for _ in range(ck.size(60, 600)):
        px = (float(rng.choice([1, 2, 0.5])), float(rng.choice([1, 2, 0.5])))
        radii = np.arange(0, int(rng.randint(2, 9)) + 1, dtype=float)
        vals = rng.randint(1, 30, len(radii)).astype(float)
        got = ck.real(im.construct_circ_avg_image, radii, vals, pixel_size=px)
        my, mx = (int(np.floor(radii[-1] / p + 0.5)) for p in px)
        case = dict(radii=radii, vals=vals, pixel_size=px)
        if not ck.expect(not is_raised(got) and np.shape(got) == (2 * my + 1, 2 * mx + 1), "default dims hold the largest radius", got=got, **case):
            continue
        ok = close(got[my, mx], vals[0]) and close(got, got[::-1]) and close(got, got[:, ::-1])
        ok = ok and (px[0] != 1 or close(got[my + 1, mx], vals[1])) and (px[1] != 1 or close(got[my, mx + 1], vals[1]))
        ck.expect(ok, "default centre is the middle", got=got, **case)
        ck.traced()
        # the same for polar averages: shape and centre as if given
        ang = np.arange(5) * (2 * np.pi / 5) + rng.uniform(-40, 40)
        pol = rng.randint(1, 30, (len(radii), 5)).astype(float)
        got = ck.real(im.construct_rphi_avg_image, radii, ang, pol, pixel_size=px)
        want = ck.real(im.construct_rphi_avg_image, radii, ang, pol, pixel_size=px, shape=(2 * my + 1, 2 * mx + 1), center=(my, mx))
        ck.expect(not is_raised(got) and np.shape(got) == (2 * my + 1, 2 * mx + 1) and close(got, want), "default shape and centre hold the largest radius",
                  got=got, want=want, radii=radii, angles=ang, pixel_size=px)
        even = (2 * my + 2, 2 * mx + 2)
        got = ck.real(im.construct_rphi_avg_image, radii, ang, pol, pixel_size=px, shape=even)
        want = ck.real(im.construct_rphi_avg_image, radii, ang, pol, pixel_size=px, shape=even, center=(my + 0.5, mx + 0.5))
        ck.expect(not is_raised(got) and close(got, want), "the default centre is the middle of the shape", got=got, want=want)
        got = ck.real(im.construct_circ_avg_image, radii, vals, pixel_size=px, dims=even)
        want = ck.real(im.construct_circ_avg_image, radii, vals, pixel_size=px, dims=even, center=(my + 0.5, mx + 0.5))
        ck.expect(not is_raised(got) and close(got, want), "the default centre is the middle of the dims", got=got, want=want)
    bad = ck.real(im.construct_circ_avg_image, np.arange(3.0), np.arange(3.0), center=(1, 1))
    ck.expect(is_raised(bad, "ValueError"), "a centre without dims is refused", got=bad)
    bad = ck.real(im.construct_rphi_avg_image, np.arange(3.0), np.arange(3.0), np.ones((3, 3)), center=(1, 1))
    ck.expect(is_raised(bad, "ValueError"), "a centre without shape is refused", got=bad)
    bad = ck.real(im.construct_rphi_avg_image, np.arange(3.0), np.linspace(0, 2 * np.pi, 3), np.ones((3, 3)), shape=(3, 3), center=(1, 1))
    ck.expect(is_raised(bad, "ValueError"), "angles over more than a turn are refused", got=bad)
    for ang in ([0.0, 1.0, 0.5], [3.0, 2.9, 4.0], [0.0, 2.0, 1.9999]):
        bad = ck.real(im.construct_rphi_avg_image, np.arange(3.0), np.array(ang), np.ones((3, 3)), shape=(3, 3), center=(1, 1))
        ck.expect(is_raised(bad, "ValueError"), "angles that do not ascend are refused", angles=ang, got=bad)
    for m in (np.ones((2, 3)), np.ones(9)):
        bad = ck.real(im.construct_rphi_avg_image, np.arange(3.0), np.arange(3.0), np.ones((3, 3)), shape=(3, 3), center=(1, 1), mask=m)
        ck.expect(is_raised(bad, "ValueError"), "a mask of another shape is refused", got=bad)
