"""P02: differential phase contrast."""
import numpy as np

from common import close, is_raised, nonvacuous, same_ints, unit


def phase_of(gx, gy, sx, sy, padding, w):
    """The image whose gradients are closest to gx, gy (from the definition)."""
    rows, cols = gx.shape
    pr, pc = rows * (2 * padding + 1), cols * (2 * padding + 1)
    bx, by = np.zeros((pr, pc)), np.zeros((pr, pc))
    bx[padding * rows:(padding + 1) * rows, padding * cols:(padding + 1) * cols] = gx
    by[padding * rows:(padding + 1) * rows, padding * cols:(padding + 1) * cols] = gy
    kx = 2 * np.pi * np.fft.fftfreq(pc, sx)[None, :]
    ky = 2 * np.pi * np.fft.fftfreq(pr, sy)[:, None]
    den = (1 - w) * kx**2 + w * ky**2
    num = -1j * ((1 - w) * kx * np.fft.fft2(bx) + w * ky * np.fft.fft2(by))
    with np.errstate(all="ignore"):
        f = np.where(den == 0, 0, num / np.where(den == 0, 1, den))
    return np.fft.ifft2(f).real[padding * rows:(padding + 1) * rows, padding * cols:(padding + 1) * cols]


def gaussian(shape, rng):
    r, c = np.indices(shape)
    cr, cc = (shape[0] - 1) / 2.0 + rng.uniform(-0.4, 0.4), (shape[1] - 1) / 2.0 + rng.uniform(-0.4, 0.4)
    return 1000 * np.exp(-((r - cr) ** 2) / (2 * (shape[0] / 9.0) ** 2) - ((c - cc) ** 2) / (2 * (shape[1] / 9.0) ** 2))


def run(ck):
    from skbeam.core import dpc

    rng = ck.np_rng
    logs = []
    grids = [(2, 2), (1, 4), (3, 1), (2, 3)] + ([(3, 2), (1, 6), (3, 3), (5, 1)] if ck.thorough else [])
    for rows, cols in grids:
        r = ck.tlc("Dpc", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Raster Report\n"
                   "CONSTANTS Rows=%d Cols=%d MaxStops=2 MaxPeeks=1\n" % (rows, cols), workers=4)
        logs += r.out
    rows, cols = int(rng.randint(10, 14)), int(rng.randint(10, 14))
    wide = ck.tlc("Dpc", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Raster Report\n"
                  "CONSTANTS Rows=%d Cols=%d MaxStops=0 MaxPeeks=0\n" % (rows, cols), workers=1).out
    nonvacuous(len(wide) == 1, "one way through a wide scan")
    nonvacuous(len(logs) > 60, "histories of scans: %d" % len(logs))
    pick = [logs[i] for i in rng.permutation(len(logs))[:ck.size(70, 600)]]
    for h in pick + wide:
        scan(ck, dpc, rng, h)
    reduce(ck, dpc, rng)
    gradients(ck, dpc, rng)


def scan(ck, dpc, rng, h):
    rows, cols = h["rows"], h["cols"]
    shape = (int(rng.randint(12, 17)), int(rng.randint(12, 17)))
    ref = gaussian(shape, rng)
    whole = rng.randint(4) == 0       # counts, of a whole number type
    if whole:
        ref = np.round(ref * 4) * 4
    part = None
    big = shape
    at = (0, 0)
    if rng.randint(3) == 0:
        # the beam sees a part of the detector only; the rest is noise
        at = (int(rng.randint(0, 3)), int(rng.randint(0, 4)))
        big = (shape[0] + 3, shape[1] + 5)
        part = [at[0], at[1], shape[0], shape[1]]
        if rng.randint(2):
            part = np.array(part)

    def frame(im):
        if part is None:
            return im
        f = rng.uniform(0, 500, big)
        f[at[0]:at[0] + shape[0], at[1]:at[1] + shape[1]] = im
        return f

    total = rows * cols
    amp = rng.choice([0.5, 0.75, 1, 1.25, 1.5], total)
    dr, dc = rng.randint(-2, 3, total), rng.randint(-2, 3, total)
    images = [frame(a * np.roll(ref, (i, j), (0, 1))) for a, i, j in zip(amp, dr, dc)]
    refim = frame(ref)
    bad = None
    if part is not None and rng.randint(2):
        # bad pixels: hot, but outside of the signal
        bad = [(int(at[0] + r), int(at[1] + c)) for r, c in ((0, 0), (shape[0] - 1, 1), (1, shape[1] - 1))]
        ref2 = ref.copy()
        for r, c in bad:
            for im in images + [refim]:
                im[r, c] = 0
            ref2[r - at[0], c - at[1]] = 0
        for im in images + [refim]:
            for r, c in bad:
                im[r, c] = 1e6
    solver = ["Nelder-Mead", "Nelder-Mead", "Powell", "BFGS"][rng.randint(4)]
    if whole:
        kind = np.int32 if bad is not None else np.uint16
        images, refim = [im.astype(kind) for im in images], refim.astype(kind)
    elif solver == "Nelder-Mead" and rng.randint(2):
        # counts in any unit
        unit = float(rng.choice([1e-7, 1e-3, 1e5]))
        images, refim = [im * unit for im in images], refim * unit
    wax, wgx, wgy = np.zeros((rows, cols)), np.zeros((rows, cols)), np.zeros((rows, cols))
    args = ([1, 0], rows, cols) if solver == "Nelder-Mead" and rng.randint(2) else ([1, 0], rows, cols, solver)
    kw = {}
    if part is not None:
        kw["roi"] = part
    if bad is not None:
        kw["bad_pixels"] = bad
    state, gen, k = None, None, 0
    energy, sx, sy, pix, foc = float(rng.choice([19.5, 0.8, 0.25, 90.0])), 0.1, 0.25, float(rng.choice([55.0, 75.0])), 1.46e6
    info = dict(history=h, shape=shape, roi=part, bad=bad, solver=solver, amplitude=amp, rowshift=dr, colshift=dc)

    def right(st):
        # at bad pixels close to zero signal the gradients move little
        tol = 2e-3 if bad else 2e-4
        return (close(st.ax, wax, 0, tol) and close(st.ay, wax, 0, tol) and close(st.gx, wgx, 0, tol) and close(st.gy, wgy, 0, tol)
                and st.index[0] == k)

    for ev in h["log"]:
        if ev == "start":
            extra = dict(kw)
            if state is not None:
                extra["dpc_state"] = state
            gen = ck.real(dpc.lazy_dpc, refim, iter(images[k:]) if rng.randint(2) else images[k:], *args, **extra)
        elif ev == "feed":
            got = ck.real(next, gen)
            if is_raised(got):
                ck.fail("lazy_dpc: a state after every pattern", got=got, **info)
                return
            i, j = divmod(k, cols)
            wax[i, j], wgx[i, j], wgy[i, j] = amp[k], 2 * np.pi * dc[k] / shape[1], 2 * np.pi * dr[k] / shape[0]
            k += 1
            state = got
            if not ck.expect(right(state), "lazy_dpc: amplitude and gradients of each pattern at its place in the scan", fed=k,
                             got=state._asdict(), want=[wax, wgx, wgy], **info):
                return
        elif ev == "stop":
            gen.close()
        else:
            before = [np.array(v) for v in state]
            neg, scale = bool(rng.randint(2)), bool(rng.randint(2))
            pad, w = int(rng.randint(0, 3)), float(rng.choice([0, 0.3, 0.5, 1.0]))
            peek(ck, dpc, state, (energy, sx, sy, pix, foc), neg, scale, pad, w, shape, info)
            ck.expect(all(np.array_equal(a, b) for a, b in zip(before, state)), "looking at a partial result changes nothing", **info)
    got = ck.real(next, gen)
    ck.expect(is_raised(got, "StopIteration"), "lazy_dpc: ends with the patterns", got=got, **info)
    # the whole in one call
    neg, pad, w, scale = bool(rng.randint(2)), int(rng.randint(0, 2)), float(rng.choice([0.25, 0.5])), bool(rng.randint(2))
    opt = dict(padding=pad, weighting=w, negate=neg, scale=scale)
    for name, doc in (("padding", 0), ("weighting", 0.5), ("negate", True), ("scale", True)):
        if opt[name] == doc:
            del opt[name]
    if solver != "Nelder-Mead" or rng.randint(3) == 0:
        opt["solver"] = solver
    got = ck.real(dpc.dpc_runner, refim, images, [1, 0], (pix, pix) if rng.randint(2) else [pix], foc, rows, cols, sx, sy, energy,
                  **dict(opt, **kw))
    want = expected(state, energy, sx, sy, pix, foc, neg, scale, pad, w, shape)
    # the phase of one pixel of shift over the scan; two fits agree to a thousandth of it
    one = 2 * np.pi * (pix / ((12.4e-4 / energy) * foc) if scale else 1.0 / min(shape)) * max(sx, sy) * max(rows, cols)
    ck.expect(not is_raised(got) and close(got[0], want[0], 1e-3, 1e-3 * (one + np.abs(want[0]).max()))
              and close(got[1], want[1], 0, 2e-4), "dpc_runner: the same as step by step", negate=neg, scale=scale, padding=pad,
              weighting=w, got=got, want=want, **info)
    ck.traced()
    ck.sample(history=h)


def expected(state, energy, sx, sy, pix, foc, neg, scale, pad, w, shape):
    f = pix / ((12.4e-4 / energy) * foc) if scale else 1.0
    gx = state.gx * (shape[1] * f if scale else 1) * (-1 if neg else 1)
    gy = state.gy * (shape[0] * f if scale else 1)
    return phase_of(gx, gy, sx, sy, pad, w), (state.ax + state.ay) / 2


def peek(ck, dpc, state, geo, neg, scale, pad, w, shape, info):
    energy, sx, sy, pix, foc = geo
    want = expected(state, energy, sx, sy, pix, foc, neg, scale, pad, w, shape)
    got = ck.real(dpc.reconstruct_phase_from_partial_info, state, energy, sx, sy, pix, foc, neg, scale, pad, w)
    ok = not is_raised(got) and close(got[0], want[0], 1e-6, 1e-9 * (1 + np.abs(want[0]).max())) and close(got[1], want[1])
    ck.expect(ok, "phase and amplitude from what has been scanned", negate=neg, scale=scale, padding=pad, weighting=w, got=got,
              want=want, **info)
    if not scale:
        # without the geometry there is no scale either
        for part in ({}, dict(pixel_size=pix), dict(focus_to_det=foc)):
            got = ck.real(dpc.reconstruct_phase_from_partial_info, state, energy, sx, sy, negate=neg, padding=pad, weighting=w, **part)
            ok = not is_raised(got) and close(got[0], want[0], 1e-6, 1e-9 * (1 + np.abs(want[0]).max())) and close(got[1], want[1])
            ck.expect(ok, "phase without the geometry of the detector", negate=neg, given=sorted(part), got=got, want=want, **info)
    want = expected(state, energy, sx, sy, pix, foc, True, True, 0, 0.5, shape)
    got = ck.real(dpc.reconstruct_phase_from_partial_info, state, energy, sx, sy, pix, foc)
    ok = not is_raised(got) and close(got[0], want[0], 1e-6, 1e-9 * (1 + np.abs(want[0]).max())) and close(got[1], want[1])
    ck.expect(ok, "phase as documented by default", got=got, want=want, **info)


def reduce(ck, dpc, rng):
    cases = []
    for _ in range(ck.size(150, 2000)):
        nr, nc = int(rng.randint(1, 7)), int(rng.randint(1, 7))
        whole = bool(rng.randint(2))
        r0, c0 = int(rng.randint(0, nr)), int(rng.randint(0, nc))
        roi = [0, 0, nr, nc] if whole else [r0, c0, int(rng.randint(1, nr + 2)), int(rng.randint(1, nc + 2))]
        cases.append(dict(nr=nr, nc=nc, img=rng.randint(-9, 100, (nr, nc)).tolist(), roi=roi,
                          bad=[[int(rng.randint(nr)), int(rng.randint(nc))] for _ in range(rng.randint(0, 4))], whole=whole))
    for _ in range(ck.size(3, 10)):          # high counts
        nr, nc = int(rng.randint(2, 7)), int(rng.randint(2, 7))
        cases.append(dict(nr=nr, nc=nc, img=rng.randint(0, 30000001, (nr, nc)).tolist(), roi=[0, 0, nr, nc], bad=[], whole=True, high=True))
    for _ in range(ck.size(3, 10)):          # many bad pixels
        nr, nc = int(rng.randint(14, 20)), int(rng.randint(14, 20))
        bad = [[int(p) // nc, int(p) % nc] for p in rng.permutation(nr * nc)[:rng.randint(120, 190)]]
        cases.append(dict(nr=nr, nc=nc, img=rng.randint(-9, 100, (nr, nc)).tolist(), roi=[0, 0, nr, nc], bad=bad, whole=True))
    r = ck.tlc("DpcReduce", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Conserved Report\nCONSTANTS Cases <- CasesDef\n",
               data=[{n: v for n, v in c.items() if n != "high"} for c in cases], defs="CasesDef == Data", workers=4)
    res = {e["case"]: e for e in r.out}
    nonvacuous(len(res) == len(cases), "reductions")
    for k, cs in enumerate(cases):
        im = np.array(cs["img"]).astype([int, float, np.int16, np.int8, np.float32][rng.randint(2 if cs.get("high") else 5)])
        keep = im.copy()
        kw = {}
        if not cs["whole"]:
            kw["roi"] = [tuple(cs["roi"]), list(cs["roi"]), np.array(cs["roi"])][rng.randint(3)]
        if cs["bad"] or rng.randint(2):
            kw["bad_pixels"] = [tuple(b) for b in cs["bad"]]
        got = ck.real(dpc.image_reduction, im, **kw)
        e = res[k + 1]
        ok = not is_raised(got) and len(got) == 2 and same_ints(got[0], e["x"]) and same_ints(got[1], e["y"])
        ck.expect(ok, "image_reduction: sums of columns and of rows", case=cs, got=got, want=e)
        ck.expect(np.array_equal(im, keep), "image_reduction: leaves the image alone", case=cs)
        ck.traced()


def gradients(ck, dpc, rng):
    """The reconstruction undoes the (periodic) gradient."""
    for _ in range(ck.size(60, 600)):
        rows, cols = int(rng.randint(2, 12)), int(rng.randint(2, 12))
        sx, sy = float(rng.choice([0.1, 1, 2.5])), float(rng.choice([0.1, 1, 0.3]))
        u, v = unit(rng), unit(rng)
        sx, sy = sx * v, sy * v
        f = np.fft.fft2(rng.normal(size=(rows, cols)) * u)
        f[0, 0] = 0
        if rows % 2 == 0:
            f[rows // 2, :] = 0
        if cols % 2 == 0:
            f[:, cols // 2] = 0
        phi = np.fft.ifft2(f).real
        kx, ky = 2 * np.pi * np.fft.fftfreq(cols, sx)[None, :], 2 * np.pi * np.fft.fftfreq(rows, sy)[:, None]
        gx, gy = np.fft.ifft2(1j * kx * f).real, np.fft.ifft2(1j * ky * f).real
        w = float(rng.choice([0.2, 0.5, 0.9]))
        g0 = (gx.copy(), gy.copy())
        got = ck.real(dpc.recon, gx, gy, sx, sy, 0, w) if rng.randint(2) or w != 0.5 else ck.real(dpc.recon, gx.tolist(), gy.tolist(), sx, sy)
        ck.expect(not is_raised(got) and close(np.asarray(got) / u, phi / u, 1e-6, 1e-7), "recon: the image with these gradients", shape=[rows, cols],
                  steps=[sx, sy], weighting=w, got=got, want=phi)
        pad, w = int(rng.randint(0, 4)), float(rng.choice([0, 0.4, 1]))
        a, b = rng.normal(size=(rows, cols)) * u, rng.normal(size=(rows, cols)) * u
        got = ck.real(dpc.recon, a, b, sx, sy, padding=pad, weighting=w)
        if rng.randint(4) == 0:
            # what is not said is as documented
            w = 0.5
            got = ck.real(dpc.recon, a, b, sx, sy, padding=pad) if pad else ck.real(dpc.recon, a, b, sx, sy)
        ck.expect(not is_raised(got) and close(np.asarray(got) / u / v, phase_of(a, b, sx, sy, pad, w) / u / v, 1e-6, 1e-7), "recon: least-squares image in a frame of zeros",
                  shape=[rows, cols], padding=pad, weighting=w, got=got)
        ck.expect(np.array_equal(gx, g0[0]) and np.array_equal(gy, g0[1]), "recon: leaves the gradients alone")
        ck.traced()
    for _ in range(ck.size(20, 200)):       # a state reached elsewhere
        rows, cols = int(rng.randint(1, 6)), int(rng.randint(1, 6))
        nx, ny = int(rng.randint(4, 40)), int(rng.randint(4, 40))
        st = dpc.dpc_internal_state(*[rng.normal(size=(rows, cols)) for _ in range(4)], np.zeros(nx, complex), np.zeros(ny, complex), [int(rng.randint(rows * cols + 1))])
        geo = (float(rng.uniform(0.2, 90)), float(rng.uniform(0.1, 2)), float(rng.uniform(0.1, 2)), float(rng.uniform(10, 99)), float(rng.uniform(1e5, 1e7)))
        peek(ck, dpc, st, geo, bool(rng.randint(2)), bool(rng.randint(2)), int(rng.randint(3)), float(rng.choice([0, 0.3, 0.5, 1.0])), (ny, nx), dict(state=st._asdict()))
        ck.traced()
    z = np.zeros((3, 3))
    for w in (-0.01, 1.01):
        ck.expect(is_raised(ck.real(dpc.recon, z, z, 1, 1, 0, w), "ValueError"), "recon: weights are between 0 and 1", weighting=w)
    for sizes in ((55, 75), (55.0, 55.5), (55, 54.999), [0.1, 0.11]):
        got = ck.real(dpc.dpc_runner, np.ones((4, 4)), [np.ones((4, 4))], [1, 0], sizes, 1, 1, 1, 1, 1, 1)
        ck.expect(is_raised(got, "ValueError"), "dpc_runner: pixels are square", sizes=sizes, got=got)
    st = dpc.dpc_internal_state(z, z, z, z, z[0], z[0], [9])
    for w in (-0.01, 1.01):
        ck.expect(is_raised(ck.real(dpc.reconstruct_phase_from_partial_info, st, 1.0, 1, 1, weighting=w), "ValueError"),
                  "reconstruction: weights are between 0 and 1", weighting=w)
