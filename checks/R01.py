"""R01: label arrays of regions of interest."""
import numpy as np

from common import close, is_raised, nonvacuous, same_ints, unit


def rising(rng, n, hi, lo=0):
    return sorted(int(v) for v in rng.randint(lo, hi + 1, 2 * n))


def rand_case(rng):
    nr, nc = int(rng.randint(1, 10)), int(rng.randint(1, 10))
    kind = ["rect", "bar", "box", "ring", "seg", "seg"][rng.randint(6)]
    cs = dict(kind=kind, nr=nr, nc=nc, cr=0, cc=0, excl=False)
    if kind == "rect":
        n = int(rng.randint(0, 5))
        m = int(rng.choice([0, 6]))
        big = 3 * int(rng.randint(2))
        cs["regs"] = [[int(rng.randint(-m, nr + m)), int(rng.randint(-m, nc + m)), int(rng.randint(big, 6)), int(rng.randint(big, 6))]
                      for _ in range(n)]
        cs["excl"] = True
    elif kind == "bar":
        axis = int(rng.randint(2))
        e = rising(rng, int(rng.randint(1, 4)), 4 * (nr, nc)[axis] + 6, -4)
        cs["regs"] = [[e[2 * i], e[2 * i + 1], axis] for i in range(len(e) // 2)]
    elif kind == "box":
        h = rising(rng, int(rng.randint(1, 3)), nr + 2, -2)
        v = rising(rng, int(rng.randint(1, 3)), nc + 2, -2)
        if rng.randint(5) == 0:
            h = [0, 3, 2, 5]
        cs["h"] = [[h[2 * i], h[2 * i + 1]] for i in range(len(h) // 2)]
        cs["v"] = [[v[2 * i], v[2 * i + 1]] for i in range(len(v) // 2)]
        cs["same"] = bool(rng.randint(4) == 0)
        if cs["same"]:
            cs["h"] = cs["v"]
        cs["regs"] = [[a[0], b[0], a[1] - a[0], b[1] - b[0]] for a in cs["h"] for b in cs["v"]]
        cs["kind"] = "rect"
        cs["box"] = True
        cs["excl"] = True
    else:
        cs["cr"], cs["cc"] = int(rng.randint(-8, 4 * nr + 8)), int(rng.randint(-8, 4 * nc + 8))
        if rng.randint(3) == 0:
            cs["cr"], cs["cc"] = 4 * (nr // 2), 4 * (nc // 2)
        e = rising(rng, int(rng.randint(1, 4)), 4 * max(nr, nc))
        if rng.randint(3) == 0:
            e = [4 * (v // 4) for v in e]
        ring = [[e[2 * i], e[2 * i + 1]] for i in range(len(e) // 2)]
        if kind == "ring":
            cs["regs"] = ring
        else:
            off = int(rng.choice([0, 0, 1, 2, 3, 5, 7, -1, -3, 9]))
            if rng.randint(2):
                n = int(rng.choice([1, 2, 4, 8]))
                segs = [8 * j // n for j in range(n + 1)]
                cs["segarg"] = n
            else:
                start = int(rng.choice([0, 0, 1, -2, 3]))
                segs = sorted(set(int(v) for v in start + rng.randint(0, 9, rng.randint(2, 6))))
                if len(segs) < 2:
                    segs = [segs[0], segs[0] + 1]
                cs["segarg"] = [s for s in segs]
            cs["off"] = off
            cs["regs"] = [g + [segs[j] + off, segs[j + 1] + off] for g in ring for j in range(len(segs) - 1)]
            cs["ring"] = ring
    return cs


def run(ck):
    from skbeam.core import roi

    rng = ck.np_rng
    cases = [rand_case(rng) for _ in range(ck.size(700, 8000))]
    r = ck.tlc("Roi", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Faithful NoClash Report\n"
               "CONSTANTS Cases <- CasesDef\n", data=cases, defs="CasesDef == Data", workers=8)
    res = {e["case"]: e for e in r.out}
    nonvacuous(len(res) == len(cases), "one result per case")
    seen = {}
    for k, cs in enumerate(cases):
        want = res[k + 1]
        shape = (cs["nr"], cs["nc"])
        if cs.get("box"):
            args = (shape, cs["v"]) if cs["same"] else (shape, cs["v"], cs["h"])
            got = ck.real(roi.box, *args)
            name = "box"
        elif cs["kind"] == "rect":
            arg = cs["regs"] if rng.randint(2) or not cs["regs"] else np.array(cs["regs"])
            args = (arg, shape)
            got = ck.real(roi.rectangles, *args)
            name = "rectangles"
        elif cs["kind"] == "bar":
            edges = [(a / 4.0, b / 4.0) for a, b, _ in cs["regs"]]
            axis = cs["regs"][0][2]
            form = rng.randint(3)
            args = (edges, shape)
            kw = dict(horizontal=axis == 0)
            if form == 1:
                # coordinates of the caller: twice the pixel number, minus 3
                grid = np.indices(shape)[axis]
                u = unit(rng)
                args = ([((2 * a - 3) * u, (2 * b - 3) * u) for a, b in edges], shape)
                kw["values"] = (2.0 * grid - 3) * u if rng.randint(2) else (2.0 * grid - 3).ravel() * u
            if axis == 0 and rng.randint(2):
                del kw["horizontal"]
            got = ck.real(roi.bar, *args, **kw)
            name = "bar"
        elif cs["kind"] == "ring":
            args = ([(a / 4.0, b / 4.0) for a, b in cs["regs"]], (cs["cr"] / 4.0, cs["cc"] / 4.0), shape)
            got = ck.real(roi.rings, *args)
            name = "rings"
        else:
            ang = np.pi / 4
            seg = cs["segarg"] if isinstance(cs["segarg"], int) else [s * ang for s in cs["segarg"]]
            args = ([(a / 4.0, b / 4.0) for a, b in cs["ring"]], seg, (cs["cr"] / 4.0, cs["cc"] / 4.0), shape)
            kw = {} if cs["off"] == 0 and rng.randint(2) else dict(offset_angle=cs["off"] * ang)
            got = ck.real(roi.segmented_rings, *args, **kw)
            name = "segmented_rings"
        seen[name, want["status"]] = seen.get((name, want["status"]), 0) + 1
        if want["status"] == "overlap":
            ck.expect(is_raised(got, "ValueError"), name + ": overlapping regions are refused", case=cs, got=got)
        elif is_raised(got):
            ck.fail(name + ": regions are drawn", error=got, case=cs)
        else:
            ok = got.shape == shape and np.asarray(got).dtype.kind in "iu" and all(
                got[i, j] in want["lab"][i][j] for i in range(shape[0]) for j in range(shape[1]))
            ck.expect(ok, name + ": every pixel has the label of the region it is in", case=cs, got=got, want=want["lab"])
        ck.traced()
        ck.sample(kind=name, regs=cs["regs"], shape=shape)
    for key in (("box", "overlap"), ("rectangles", "overlap"), ("rectangles", "done"), ("bar", "done"), ("rings", "done"),
                ("segmented_rings", "done"), ("box", "done")):
        nonvacuous(seen.get(key, 0) > 5, str(key))
    # radii of the rings
    def setof(lists):
        return "{" + ", ".join("[list |-> %s, v |-> <<%s>>]" % ("TRUE" if li else "FALSE", ",".join(map(str, v)))
                               for li, v in lists) + "}"

    ws = [(False, [2]), (False, [5]), (True, [3]), (True, [1, 4]), (True, [2, 3, 1]), (True, [5, 4, 3, 2])]
    ss = [(False, [0]), (False, [3]), (True, []), (True, [2]), (True, [1, 2]), (True, [2, 0, 1])]
    r = ck.tlc("RingEdges", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Ordered Report\n"
               "CONSTANTS Inners={0,1,7} Nums={0,1,2,3,4} Widths <- W Spacings <- S\n",
               defs="W == %s\nS == %s" % (setof(ws), setof(ss)))
    nonvacuous(len(r.out) == 3 * 5 * 36, "ring edges")
    for e in r.out:
        for rep, scale in enumerate((1, 0.25, 1, 2.0**-40, 2.0**30)):
            w = [v * scale for v in e["w"]["v"]] if e["w"]["list"] else e["w"]["v"][0] * scale
            s = [v * scale for v in e["s"]["v"]] if e["s"]["list"] else e["s"]["v"][0] * scale
            if rng.randint(2) and isinstance(w, list):
                w = tuple(w)
            kw = {}
            if e["num"] or rng.randint(2):
                kw["num_rings"] = e["num"] or None
            if not (s == 0 and not e["s"]["list"] and rng.randint(2)):
                kw["spacing"] = s
            inner = e["inner"] * scale
            want = None if e["status"] == "refused" else np.array(e["edges"], float).reshape(-1, 2) * scale
            if rep == 2:
                # whole numbers among fractions
                di, dw, ds = [rng.randint(2) * v for v in (0.5, 0.25, 0.75)]
                w = type(w)(v + dw if dw else v for v in w) if not np.isscalar(w) else w + dw if dw else w
                if "spacing" in kw:
                    kw["spacing"] = [v + ds if ds else v for v in s] if isinstance(s, list) else s + ds if ds else s
                else:
                    ds = 0
                inner = inner + di if di else inner
                if want is not None:
                    k = np.arange(len(want))[:, None]
                    want = want + di + k * ds + (k + [[0, 1]]) * dw
            got = ck.real(roi.ring_edges, inner, w, **kw)
            if e["status"] == "refused":
                ck.expect(is_raised(got, "ValueError"), "ring_edges: inconsistent requests are refused", want=e, got=got)
            else:
                ck.expect(not is_raised(got) and close(np.asarray(got) / scale, want / scale),
                          "ring_edges: radii follow widths and spacings", inner=inner, width=w, kw=kw, want=want, got=got)
        ck.traced()
    # lines
    lc = []
    for _ in range(ck.size(300, 3000)):
        nr, nc = int(rng.randint(1, 12)), int(rng.randint(1, 12))
        lc.append(dict(nr=nr, nc=nc, line=[int(rng.randint(-3, nr + 4)), int(rng.randint(-3, nc + 4)),
                                           int(rng.randint(-3, nr + 4)), int(rng.randint(-3, nc + 4))]))
    r = ck.tlc("RoiLines", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Nonempty Ends Report\n"
               "CONSTANTS Cases <- CasesDef\n", data=lc, defs="CasesDef == Data", workers=4)
    paths = {e["case"]: e["path"] for e in r.out}
    for k, cs in enumerate(lc):
        got = ck.real(roi.lines, [cs["line"]], (cs["nr"], cs["nc"]))
        if is_raised(got):
            ck.fail("lines: lines are drawn inside the image", error=got, case=cs)
            continue
        pix = set(zip(*(int_list(a) for a in np.nonzero(np.asarray(got) == 1))))
        steps = [set(map(tuple, s)) for s in paths[k + 1]]
        ok = got.shape == (cs["nr"], cs["nc"]) and set(np.unique(got).tolist()) <= {0, 1} and len(pix) == len(steps) \
            and all(len(pix & s) >= 1 for s in steps) and pix <= set().union(*steps)
        ck.expect(ok, "lines: the pixels next to the ideal line are labelled", case=cs, got=got, want=paths[k + 1])
        ck.traced()
    # several lines: each keeps its own number, a later one wins where they cross
    for _ in range(ck.size(60, 400)):
        shape = (8, 9)
        ls = [[int(rng.randint(0, 8)), int(rng.randint(0, 9)), int(rng.randint(0, 8)), int(rng.randint(0, 9))] for _ in range(3)]
        got = ck.real(roi.lines, ls, shape)
        each = [ck.real(roi.lines, [li], shape) for li in ls]
        if is_raised(got):
            ck.fail("lines: lines are drawn inside the image", error=got, case=ls)
            continue
        want = np.zeros(shape, int)
        for i, e in enumerate(each):
            want[np.asarray(e) == 1] = i + 1
        ck.expect(same_ints(got, want), "lines: labels in the order of the lines", case=ls, got=got, want=want)
    # edges just before and just after pixels
    for eps in (0.0, 2.0**-20, 2.0**-34, -(2.0**-20), -(2.0**-34)):
        pos = np.arange(12)
        want = ((pos >= 3 + eps) & (pos < 5 + eps)) * 1 + ((pos >= 7 + eps) & (pos < 9 + eps)) * 2
        e = [(3 + eps, 5 + eps), (7 + eps, 9 + eps)]
        for name, got, w in (("bar", ck.real(roi.bar, e, (12, 2)), np.repeat(want[:, None], 2, 1)), ("bar", ck.real(roi.bar, e, (2, 12), horizontal=False), np.repeat(want[None], 2, 0)),
                             ("rings", ck.real(roi.rings, e, (0, 0), (1, 12)), want[None]), ("rings", ck.real(roi.rings, e, (0, 0), (12, 1)), want[:, None]),
                             ("segmented_rings", ck.real(roi.segmented_rings, e, 1, (0, 0), (1, 12)), want[None])):
            ck.expect(not is_raised(got) and same_ints(got, w), name + ": pixels just within and just outside of the edges", edges=e, got=got, want=w)
        # radii that are no fractions
        yy, xx = np.mgrid[:6, :6]
        q = yy * yy + xx * xx
        for a, b in ((2, 5), (13, 29), (10, 41)):
            e = [(np.sqrt(a) + eps, np.sqrt(b) - eps)] if eps else [(1.25, 6.25)]
            w = ((q >= a) & (q <= b) if eps < 0 else (q > a) & (q < b) if eps else (q > 1.25**2) & (q < 6.25**2)) * 1
            for name, got in (("rings", ck.real(roi.rings, e, (0, 0), (6, 6))), ("segmented_rings", ck.real(roi.segmented_rings, e, 1, (0, 0), (6, 6)))):
                ck.expect(not is_raised(got) and same_ints(got, w), name + ": pixels just within and just outside of the edges", edges=e, got=got, want=w)
        # the 3-4-5 pixels
        got = ck.real(roi.rings, [(4.5, 5 + eps)], (0, 0), (6, 6))
        yy, xx = np.mgrid[:6, :6]
        q = yy * yy + xx * xx
        w = ((q > 20) & ((q < 25) | ((q == 25) & (eps > 0)))) * 1
        ck.expect(not is_raised(got) and same_ints(got, w), "rings: pixels just within and just outside of the edges", eps=eps, got=got, want=w)
    # more regions than a byte counts
    for n in (130, 300):
        bars = [(1.5 * k, 1.5 * k + 1) for k in range(n)]
        x = np.arange(600)
        want = np.zeros(600, int)
        for k, (a, b) in enumerate(bars):
            want[(x >= a) & (x < b)] = k + 1
        for hor, sh in ((True, (600, 2)), (False, (3, 600))):
            got = ck.real(roi.bar, bars, sh, horizontal=hor)
            w = np.repeat(want[:, None], 2, axis=1) if hor else np.repeat(want[None], 3, axis=0)
            ck.expect(not is_raised(got) and same_ints(got, w), "bar: every pixel has the label of the region it is in (many)", n=n, horizontal=hor)
        got = ck.real(roi.rings, bars, (0, 0), (1, 600))
        ck.expect(not is_raised(got) and same_ints(got, want[None]), "rings: every pixel has the label of the region it is in (many)", n=n)
        seg = 40
        got = ck.real(roi.segmented_rings, bars[:n // 10], seg, (0.3, 0.6), (60, 50))
        yy, xx = np.mgrid[:60, :50]
        rr, aa = np.hypot(yy - 0.3, xx - 0.6), np.arctan2(yy - 0.3, xx - 0.6) % (2 * np.pi)
        w = np.zeros((60, 50), int)
        for k, (a, b) in enumerate(bars[:n // 10]):
            sel = (rr >= a) & (rr < b)
            w[sel] = k * seg + 1 + (aa[sel] // (2 * np.pi / seg)).astype(int)
        ck.expect(not is_raised(got) and same_ints(got, w), "segmented_rings: every pixel has the label of the region it is in (many)", n=n // 10 * seg)
        rects = [(3 * (k // 20), 2 * (k % 20), 2, 1) for k in range(n)]
        w = np.zeros((60, 40), int)
        for k, (a, b, h, v) in enumerate(rects):
            w[a:a + h, b:b + v] = k + 1
        got = ck.real(roi.rectangles, rects, (60, 40))
        ck.expect(not is_raised(got) and same_ints(got, w), "rectangles: every pixel has the label of the region it is in (many)", n=n)
        got = ck.real(roi.box, (60, 40), [(2 * k, 2 * k + 1) for k in range(20)], [(3 * k, 3 * k + 2) for k in range(n // 20)])
        w = np.where(w <= n // 20 * 20, w, 0)
        ck.expect(not is_raised(got) and same_ints(got, w), "box: every pixel has the label of the region it is in (many)", n=n)
        got = ck.real(roi.lines, [(k // 25, k % 25, k // 25, k % 25) for k in range(n)], (20, 25))
        w = np.where(np.arange(500) < n, np.arange(500) + 1, 0).reshape(20, 25)
        ck.expect(not is_raised(got) and same_ints(got, w), "lines: labels in the order of the lines (many)", n=n)
        ck.traced()
    # what cannot be regions is refused
    bad = [(roi.rings, ([1, 2, 3], (2, 2), (5, 5))), (roi.rings, ([(5, 7), (1, 2)], (2, 2), (5, 5))),
           (roi.rings, ([(7, 5)], (2, 2), (5, 5))), (roi.segmented_rings, ([1, 2, 3], 4, (2, 2), (5, 5))),
           (roi.segmented_rings, ([(3, 4), (1, 2)], 4, (2, 2), (5, 5))), (roi.bar, ([1, 2, 3], (5, 5))),
           (roi.bar, ([(3, 4), (1, 2)], (5, 5))), (roi.lines, ([(1, 2, 3)], (5, 5))),
           (roi.bar, ([(4, 3)], (5, 5))), (roi.box, ((5, 5), [(1, 2, 3)])), (roi.box, ((5, 5), [(1, 2)], [(1, 2, 3)])),
           (roi.box, ((5, 5), [(1, 2)], None, np.zeros((5, 5)), np.zeros((5, 4))))]
    for t in (np.uint8, np.uint16, np.int8, np.uint64):
        bad += [(roi.rings, (np.array([(5, 7), (1, 2)], t), (2, 2), (5, 5))), (roi.segmented_rings, (np.array([(0, 4), (1, 2)], t), 4, (2, 2), (5, 5))),
                (roi.bar, (np.array([(3, 4), (1, 2)], t), (5, 5)))]
        # of any type, up to what it holds
        top = int(min(np.iinfo(t).max, 280))
        want = np.zeros((300, 12), int)
        want[top - 5:top + 20, 2:9] = 1
        want[0:3, 1:top + 1] = 2
        got = ck.real(roi.rectangles, np.array([(top - 5, 2, 25, 7), (0, 1, 3, top)], t), (300, 12))
        ck.expect(not is_raised(got) and same_ints(got, want), "rectangles: coordinates of any type", type=t.__name__, got=got, want=want)
        got = ck.real(roi.ring_edges, 7, np.array([top, top, 2], t), np.array([top, 1], t))
        ck.expect(not is_raised(got) and same_ints(got, [[7, 7 + top], [7 + 2 * top, 7 + 3 * top], [8 + 3 * top, 10 + 3 * top]]), "ring_edges: widths of any type", type=t.__name__, got=got)
        e = np.array([(3, 9), (top - 20, top)], t)
        x = np.arange(300)
        w = ((x >= 3) & (x < 9)) * 1 + ((x >= top - 20) & (x < top)) * 2
        for name, got in (("bar", ck.real(roi.bar, e, (300, 1))), ("rings", ck.real(roi.rings, e, (0, 0), (300, 1))), ("segmented_rings", ck.real(roi.segmented_rings, e, 1, (0, 0), (300, 1)))):
            ck.expect(not is_raised(got) and same_ints(got, w[:, None]), name + ": edges of any type", type=t.__name__, got=got)
    for fn, a in bad:
        got = ck.real(fn, *a)
        ck.expect(is_raised(got, "ValueError"), "%s: impossible edges are refused" % fn.__name__, args=a, got=got)
    # boxes in the caller's coordinates (both directions given)
    rows, cols = np.mgrid[:6, :7]
    v, h = [(1, 3), (4, 6)], [(0, 2), (3, 5)]
    wants = []
    for a, b in ((rows, cols), (cols, rows)):
        w = np.zeros((6, 7), int)
        n = 0
        for hh in h:
            for vv in v:
                n += 1
                w[(a >= hh[0]) & (a < hh[1]) & (b >= vv[0]) & (b < vv[1])] = n
        wants.append(w)
    for f in (1, 10):
        got = ck.real(roi.box, (6, 7), [(f * x, f * y) for x, y in v], [(f * x, f * y) for x, y in h],
                      h_values=f * cols, v_values=f * rows)
        ck.expect(not is_raised(got) and any(same_ints(got, w) for w in wants),
                  "box: boxes follow the coordinates that are given", factor=f, got=got, want=wants[0])


def int_list(a):
    return [int(v) for v in a]
