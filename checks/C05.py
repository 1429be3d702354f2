"""C05: speckle visibility statistics."""
import numpy as np

from common import close, is_raised, nonvacuous
from xpcs import scene


def hist(values, nedges):
    """Distribution of the counts over the bins [k, k+1) of 0..nedges-1, the
    last one closed, as a density of the counts that fall into them."""
    n = nedges - 1
    h = np.zeros(n)
    for v in values:
        if 0 <= v <= n:
            h[min(int(v), n - 1)] += 1
    return h / h.sum() if h.sum() else h


def spoilt(im, labels, rng):
    """A bad frame: NaN everywhere, or in one pixel of a region."""
    f = im.astype(float)
    if rng.randint(3):
        f[:] = np.nan
    else:
        inside = np.argwhere(labels > 0)
        f[tuple(inside[rng.randint(len(inside))])] = np.nan
    return f


def run(ck):
    from skbeam.core.speckle import normalize_bin_edges, xsvs
    from skbeam.core.utils import geometric_series

    rng = ck.np_rng
    #         NT NSets NF MaxBad
    models = [(1, 1, 4, 4), (2, 1, 6, 6), (3, 1, 9, 1), (2, 2, 4, 1), (3, 2, 4, 0), (2, 3, 2, 0)]
    if ck.thorough:
        models += [(3, 1, 9, 9), (4, 1, 17, 1), (2, 2, 4, 8), (3, 2, 8, 1), (2, 3, 4, 1)]
    multi = 0
    #        one long history each: more frames, more integration times
    long = [(2, 1, 140), (4, 2, 33), (6, 1, 70), (1, 1, 290), (1, 2, 300)]
    for nt, ns, nf, bad in models + [m + (None,) for m in long]:
        bad_at, least = ("{0}", 1) if bad is not None else ("{%d}" % ck.rng.randint(1, nf + 9), nf)
        if nf == 300:  # a detector with a loose cable
            bad_at = "{%s}" % ",".join(map(str, ck.rng.sample(range(1, nf + 1), 140)))
        r = ck.tlc("Xsvs", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Exact Counted\n"
                   "CONSTANTS NT=%d NSets=%d NF=%d MaxBad=%d BadAt=%s MinLen=%d\n" % (nt, ns, nf, bad or 0, bad_at, least))
        nonvacuous(r.out, "no behaviour")
        cases = r.out
        ck.rng.shuffle(cases)
        for e in cases[: ck.size(70, 1500)] * (1 if bad is not None else ck.size(4, 20)):
            total = max(len(g) for g in e["good"])
            imgs, labels, ids = scene(rng, ns * total, "int", "rois")
            imgs = imgs.astype(np.int64)
            allgood = all(all(g) for g in e["good"])
            # frames of a narrow type: their sums go beyond what the type holds
            narrow = None if rng.randint(3) or not allgood else [np.uint8, np.int8, np.uint16][rng.randint(3)]
            if narrow is not None:
                imgs = rng.randint(0, min(np.iinfo(narrow).max, 300) + 1, imgs.shape)
            # counts that are not whole, just under and over the bounds of the bins
            part = narrow is None and rng.randint(4) == 0
            if part:
                imgs = imgs + rng.choice([0.0, 0.5, 2.0**-30, -(2.0**-30)], imgs.shape)
            found = not part and rng.randint(3) == 0
            sets, clean = [], []
            for s in range(ns):
                g = e["good"][s]
                stack = [imgs[s * total + t] for t in range(len(g))]
                clean.append(stack)
                sets.append([im if ok else np.full(im.shape, np.nan) if found else spoilt(im, labels, rng) for im, ok in zip(stack, g)])
            inside = [im[labels > 0].max() for st, g in zip(clean, e["good"]) for im, ok in zip(st, g) if ok]
            # the brightest count is given, or left for the code to find
            max_cts = None if found and inside and max(inside) >= 2 else int(rng.randint(3, 14))
            eff = max_cts if max_cts is not None else int(max(inside))
            # number_of_img anywhere in [2^(nt-1), 2^nt - 1] gives nt integration times
            nimg = int(rng.randint(2 ** (nt - 1), 2 ** nt))
            if narrow is not None and max_cts is not None:
                eff = max_cts = int(rng.randint(150, 400))
            case = dict(labels=labels, sets=sets, number_of_img=nimg, max_cts=max_cts)
            arrs = [np.array(s) for s in sets] if rng.randint(2) else sets
            if narrow is not None:
                arrs = [[np.asarray(f).astype(narrow) for f in s] for s in arrs]
            if max_cts is None:
                got = ck.real(xsvs, arrs, labels, nimg)
            else:
                # perhaps found as the maximum of images of a narrow type
                t = [int, np.uint8, np.int16][rng.randint(3)]
                mc = t(max_cts) if max_cts <= 255 else max_cts
                got = ck.real(xsvs, tuple(arrs), labels, nimg, timebin_num=2, max_cts=mc)
            if is_raised(got):
                ck.fail("photon statistics are computed", error=got, **case)
                continue
            p, sd = got
            if not ck.expect(p.shape == (nt, len(ids)) and sd.shape == p.shape, "one distribution per time and ROI",
                             got=p.shape, want=(nt, len(ids)), **case):
                continue
            for lev in range(nt):
                if any(not e["samples"][s][lev] for s in range(ns)):
                    continue
                for k, rid in enumerate(ids):
                    m = labels == rid
                    means, pows = [], []
                    for s in range(ns):
                        hs = [hist(sum(clean[s][t - 1] for t in range(b[0], b[1] + 1))[m], eff * 2**lev)
                              for b in e["samples"][s][lev]]
                        means.append(np.mean(hs, axis=0))
                        pows.append(np.mean(np.square(hs), axis=0))
                    w = np.mean(means, axis=0)
                    ws = np.sqrt(np.maximum(np.mean(pows, axis=0) - w**2, 0))
                    ck.expect(close(p[lev, k], w), "P(K) is the average over the sets of the average over the blocks",
                              level=lev, roi=rid, got=p[lev, k], want=w, **case)
                    gs = np.asarray(sd[lev, k], dtype=float)
                    ck.expect(close(gs, ws, atol=1e-6), "standard deviation of P(K)", level=lev, roi=rid,
                              got=sd[lev, k], want=ws, **case)
            ck.traced()
            multi += ns > 1
            ck.sample(good=e["good"], max_cts=max_cts, p00=p[0, 0])
    nonvacuous(multi > 10, "no case with several image sets")
    # integration times: 1, r, r^2, ... up to number_of_images; bin edges
    r = ck.tlc("Series", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Geometric Bounded Result\n"
               "CONSTANTS Ratios={2,3,5} MaxN=%d Firsts={1,2,3}\n" % ck.size(40, 700))
    nonvacuous(len(r.out) >= 9 * 40, "series")
    for e in r.out:
        got = ck.real(geometric_series, e["ratio"], e["n"], e["first"])
        ck.expect(not is_raised(got) and list(got) == e["series"],
                  "integration times are the powers up to the number of images", got=got, want=e)
        if e["first"] == 1:
            got = ck.real(geometric_series, e["ratio"], e["n"])
            ck.expect(not is_raised(got) and list(got) == e["series"],
                      "integration times are the powers up to the number of images", got=got, want=e)
        ck.traced()
    for nt in (1, 3, 9):
        for mx in (3, 6, 200) if nt < 9 else (3, 6, 5.5):
            mean = rng.uniform(0.3, 9, 2)
            got = ck.real(normalize_bin_edges, nt, 2, mean, [mx, np.uint8(mx)][rng.randint(2 if mx == int(mx) else 1)])
            for i in range(nt):
                for j in range(2):
                    e = np.arange(mx * 2**i) / (mean[j] * 2**i)
                    ck.expect(not is_raised(got) and close(got[0][i, j], e, 1e-12, 0) and close(got[1][i, j], (e[1:] + e[:-1]) / 2, 1e-12, 0),
                              "normalised edges line up with the distribution", got=got, want=e)
    ck.assume("timebin_num = 2, the value the level scheme is built for")
