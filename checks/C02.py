"""C02: the two-time matrix, and the one-time curve taken from it."""
import numpy as np

from common import is_raised, nonvacuous
from xpcs import close, scene, two_time_matrix

INV = "INVARIANTS InRange Exact Unambiguous Mirror"


def run_model(ck, nl, nb, nf, split=0, event_at=(0,), emit_from=0):
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%s\nCONSTANTS NL=%d NB=%d NF=%d MaxSplit=%d\n"
           "EventAt={%s} EmitFrom=%d\n" % (INV, nl, nb, nf, split, ",".join(map(str, event_at)), emit_from))
    r = ck.tlc("TwoTime", cfg, name="TwoTime(%d,%d,%d)" % (nl, nb, nf))
    table = {}
    for e in r.out:
        table[(e["n"], tuple(sorted(e["splits"])), tuple(sorted(e["convs"])))] = e["cells"]
    return table


def models(ck):
    quick = [(1, 2, 3), (1, 4, 6), (1, 8, 6), (2, 2, 7), (2, 4, 13), (3, 2, 12), (3, 4, 25), (4, 2, 18)]
    deep = [(2, 6, 20), (3, 6, 30), (4, 4, 40), (5, 2, 36), (2, 8, 26)]
    return quick + (deep if ck.thorough else [])


def spoil(rng, imgs):
    """Some frames bad, as NaN images."""
    f = imgs.astype(float)
    for t in range(len(f)):
        if rng.randint(5) == 0:
            f[t] = np.nan
    return f


def deaf(rng, imgs, labels):
    """What pixels outside the regions hold does not matter."""
    f = imgs.astype(float)
    for im in f:
        if (labels == 0).any() and rng.randint(2):
            im[tuple(np.argwhere(labels == 0)[rng.randint((labels == 0).sum())])] = [np.nan, np.inf, -1e300][rng.randint(3)]
    return f


def run(ck):
    from skbeam.core.correlation import lazy_two_time, one_time_from_two_time, two_time_corr, two_time_state_to_results

    rng = ck.np_rng
    rounds = ck.size(16, 80)
    #       one long history each: more frames, more levels
    long = [(5, 2, 36), (6, 2, 70), (3, 4, 140), (1, 2, 270)] + ([(7, 2, 140)] if ck.thorough else [])
    for nl, nb, nf in models(ck) + long:
        first = 0 if (nl, nb, nf) not in long else nf - 2
        table = run_model(ck, nl, nb, nf, emit_from=first)
        nonvacuous((nf, (), ()) in table, "no complete behaviour")
        for rep in range(rounds if not first else 3):
            imgs, labels, ids = scene(rng, nf, ["float", "int"][rep % 2], True)
            if rep % 3 == 2:
                imgs = spoil(rng, imgs)
            if rep % 5 == 1:
                imgs = deaf(rng, imgs, labels)
            room = nf + rng.randint(3)
            case = dict(num_levels=nl, num_bufs=nb, num_frames=room, labels=labels, images=imgs)
            im0, lab0 = imgs.copy(), labels.copy()
            levels = [] if nl == 1 and rep % 2 else [nl]
            want = two_time_matrix(table[(nf, (), ())], imgs, labels, ids, room)
            got = ck.real(two_time_corr, labels, imgs if rep % 4 else (i for i in imgs), room, nb, *levels)
            if is_raised(got):
                ck.fail("a frame sequence is processed", error=got, **case)
                continue
            g2 = np.array(got[0])
            ck.expect(close(g2, want), "two-time matrix", got=g2, want=want, **case)
            ck.expect(close(g2, np.swapaxes(g2, 1, 2)), "the matrix is symmetric", got=g2, **case)

            def partial():
                out = []
                for s in lazy_two_time(labels, (i for i in imgs), room, nb, *levels):
                    m = np.array(s.g2)
                    out.append(np.tril(m) + np.swapaxes(np.tril(m, -1), 1, 2))
                return out, np.array(two_time_state_to_results(s).g2)

            part = ck.real(partial)
            if is_raised(part):
                ck.fail("a frame sequence is processed", error=part, **case)
                continue
            steps, final = part
            ck.expect(len(steps) == nf, "one result per frame", got=len(steps), **case)
            for t, m in enumerate(steps):
                if t + 1 < first:
                    continue
                w = two_time_matrix(table[(t + 1, (), ())], imgs, labels, ids, room)
                ck.expect(close(m, w), "two-time matrix after each frame", after=t + 1, got=m, want=w, **case)
            ck.expect(close(final, want), "two_time_state_to_results gives the matrix", got=final, want=want, **case)
            # the one-time curve: average of the matrix along each diagonal
            one = ck.real(one_time_from_two_time, g2)
            both = ck.real(one_time_from_two_time, g2, calc_errors=True)
            if rep == 1:  # numbers as a user may have stored them
                whole = np.round(g2[:, :6, :6] * 100) if np.isfinite(g2).all() else np.ones((1, 3, 3))
                for t in (np.int16, np.int64, np.float32):
                    w = whole.astype(t)
                    o = ck.real(one_time_from_two_time, w)
                    ww = [[np.mean([float(p[i, i + j]) for i in range(len(p) - j)]) for j in range(len(p))] for p in w]
                    ck.expect(not is_raised(o) and close(o, ww, 1e-6 if t is np.float32 else 1e-10), "one_time_from_two_time of whole numbers", got=o, want=ww, matrix=w)
            wone = np.full((len(ids), room), np.nan)
            werr = np.full((len(ids), room), np.nan)
            for k in range(len(ids)):
                for j in range(room):
                    d = np.array([want[k, t, t + j] for t in range(room - j)])
                    v = d[~np.isnan(d)]
                    if len(v):
                        wone[k, j] = v.mean()
                        werr[k, j] = v.std() / np.sqrt(len(d))
            ck.expect(not is_raised(one) and close(one, wone), "one_time_from_two_time averages each diagonal",
                      got=one, want=wone, matrix=g2)
            ok = not is_raised(both) and len(both) == 2 and close(both[0], wone)
            if ok and not np.isnan(want).any():
                ok = close(both[1], werr, atol=1e-7)
            ck.expect(ok, "calc_errors adds std/sqrt(n) of each diagonal", got=both, want=[wone, werr], matrix=g2)
            ck.expect(np.array_equal(im0, imgs, equal_nan=True) and np.array_equal(lab0, labels),
                      "the caller's images and labels are left alone", **case)
            ck.traced()
            ck.sample(levels=nl, bufs=nb, frames=nf, g2_roi0=g2[0][: 4, : 4])
    labels = np.ones((2, 2), dtype=int)
    for odd in (1, 3, 5):
        got = ck.real(two_time_corr, labels, np.ones((4, 2, 2)), 4, odd, 2)
        ck.expect(is_raised(got, "ValueError"), "an odd number of buffers is refused", num_bufs=odd, got=got)
