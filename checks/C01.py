"""C01: the one-time correlation is the multi-tau average it is defined as."""
import numpy as np

from common import is_raised, nonvacuous
from xpcs import close, one_time_rows, scene

INV = "INVARIANTS Exact Counted Normalised Lags TrackInv"


def models(ck):
    #        NL NB NF bad
    quick = [(1, 2, 4, 4), (1, 4, 7, 2), (2, 2, 7, 7), (2, 4, 11, 1), (3, 2, 8, 8), (3, 4, 18, 1), (4, 2, 17, 1),
             (2, 6, 14, 1)]
    deep = [(1, 6, 10, 10), (2, 4, 11, 11), (3, 2, 11, 11), (3, 4, 20, 2), (4, 2, 24, 2), (5, 2, 34, 1), (2, 6, 24, 2),
            (4, 4, 40, 1), (3, 6, 40, 1), (2, 8, 36, 1)]
    return quick + (deep if ck.thorough else [])


def nset(xs):
    return "{%s}" % ",".join(str(int(x)) for x in sorted(xs))


def run_model(ck, nl, nb, nf, bad, split=0, bad_at=(0,), split_at=(0,), emit_from=0, **kw):
    """bad_at/split_at: one long history with these bad frames and interruptions instead of all short ones."""
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%s\nCONSTANTS NL=%d NB=%d NF=%d MaxBad=%d MaxSplit=%d\n"
           "BadAt=%s SplitAt=%s EmitFrom=%d\n" % (INV, nl, nb, nf, bad, split, nset(bad_at), nset(split_at), emit_from))
    r = ck.tlc("MultiTau", cfg, workers=1, **kw)
    table = {}
    for e in r.out:
        table[(tuple(e["good"]), tuple(sorted(e["splits"])))] = e["rows"]
    return table


def corrupt(imgs, labels, good, rng):
    """Frames as the user would pass them: NaN marks a bad frame; NaN outside
    every ROI is not the ROI's business."""
    out = []
    for t, g in enumerate(good):
        im = imgs[t]
        if not g:
            im = im.astype(float)
            if rng.randint(3):
                im = np.full(im.shape, np.nan)
            else:
                inside = np.argwhere(labels > 0)
                im[tuple(inside[rng.randint(len(inside))])] = np.nan
        elif rng.randint(4) == 0 and (labels == 0).any():
            im = im.astype(float)
            outside = np.argwhere(labels == 0)
            im[tuple(outside[rng.randint(len(outside))])] = np.nan
        out.append(im)
    return out


def run(ck):
    from skbeam.core.correlation import lazy_one_time, multi_tau_auto_corr
    from skbeam.core.utils import multi_tau_lags

    rng = ck.np_rng
    withbad = 0
    #        one long history each: more frames, more levels
    long = [(6, 2, 70), (7, 2, 140), (4, 4, 150), (1, 4, 300)] + ([(8, 2, 270), (6, 4, 270)] if ck.thorough else [])
    for nl, nb, nf, bad in models(ck) + [m + (None,) for m in long]:
        first = 0
        if bad is None:
            first = nf - 3
            bads = set(ck.rng.sample(range(1, nf + 1), ck.rng.randint(1, 4))) if nl != 7 else {nf + 1}
            table = run_model(ck, nl, nb, nf, 0, bad_at=bads, split_at={nf + 1}, emit_from=first)
        else:
            table = run_model(ck, nl, nb, nf, bad)
        leaves = [k for k in table if len(k[0]) == nf]
        nonvacuous(leaves, "no complete behaviour of MultiTau %s" % ((nl, nb, nf),))
        cap = ck.size(140, 4000)
        if len(leaves) > cap:
            ck.rng.shuffle(leaves)
            leaves = leaves[:cap]
            ck.exhaustive = False
        for good, _ in leaves * (1 if bad is not None else ck.size(3, 10)):
            imgs, labels, ids = scene(rng, nf, ["float", "int"][rng.randint(2)], True)
            if rng.randint(6) == 0:
                # a region that is dark in the first frames cannot be normalised
                imgs = imgs.copy()
                imgs[: rng.randint(1, nf + 1), labels == ids[-1]] = 0
            frames = corrupt(imgs, labels, good, rng)
            clean = np.array([np.nan_to_num(f) if g else np.full(f.shape, np.nan) for f, g in zip(frames, good)], dtype=float)
            before = [f.copy() for f in frames]
            lab0 = labels.copy()
            case = dict(num_levels=nl, num_bufs=nb, good=list(good), labels=labels, images=frames)

            def whole():
                kept = [(np.array(r.g2), np.array(r.lag_steps), r) for r in lazy_one_time(
                    (f for f in frames), nl, nb, labels)]
                # results the caller keeps stay as they were
                stay = all(np.array_equal(g, r.g2, equal_nan=True) and np.array_equal(lag, r.lag_steps) for g, lag, r in kept)
                return [(g, lag) for g, lag, r in kept], stay

            got = ck.real(whole)
            if is_raised(got):
                ck.fail("a frame sequence is processed", error=got, **case)
                continue
            got, stay = got
            ck.expect(stay, "results kept by the caller do not change with later frames", **case)
            ck.expect(len(got) == nf, "one result per frame", n=len(got), **case)
            for t, (g2, lags) in enumerate(got):
                if t + 1 < first:
                    continue
                w2, wl = one_time_rows(table[(good[: t + 1], ())], clean, labels, ids)
                ck.expect(close(g2, w2), "g2 is the average over the good pairs at each lag, per ROI",
                          after=t + 1, got=g2, want=w2, **case)
                ck.expect(close(lags, wl), "lag_steps name the lags of the rows of g2", after=t + 1, got=lags, want=wl, **case)
            ag = ck.real(multi_tau_auto_corr, nl, nb, labels, frames if rng.randint(3) else (f for f in frames))
            w2, wl = one_time_rows(table[(good, ())], clean, labels, ids)
            ck.expect(not is_raised(ag) and close(ag[0], w2) and close(ag[1], wl),
                      "multi_tau_auto_corr returns the last result", got=ag, want=[w2, wl], **case)
            ck.expect(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, frames)) and
                      np.array_equal(lab0, labels), "the caller's images and labels are left alone", **case)
            withbad += not all(good)
            ck.traced()
            ck.sample(levels=nl, bufs=nb, good=list(good), g2=got[-1][0])
        # the lag table is the one the model derives its rows from
        rows = table[leaves[0]]
        tl = ck.real(multi_tau_lags, nl, nb)
        want = [r["lag"] for r in rows]
        ck.expect(not is_raised(tl) and tl[0] == len(want) and close(tl[1], want) and
                  close(np.concatenate([np.asarray(tl[2][k], dtype=float) for k in sorted(tl[2])]), want)
                  and sorted(tl[2]) == list(range(1, nl + 1)) and len(tl[2][1]) == nb,
                  "multi_tau_lags lists the lags of every level", got=tl, want=want, num_levels=nl, num_bufs=nb)
    nonvacuous(withbad > 20, "too few behaviours with bad frames")
    labels = np.ones((2, 2), dtype=int)
    imgs = np.ones((3, 2, 2))
    for odd in (1, 3, 5, 7):
        for fn, args in ((multi_tau_auto_corr, (2, odd, labels, imgs)), (multi_tau_lags, (2, odd))):
            got = ck.real(fn, *args)
            ck.expect(is_raised(got, "ValueError"), "an odd number of buffers is refused", num_bufs=odd, got=got)
