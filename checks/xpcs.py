"""Concretisation shared by the correlation checks: the specification speaks
of frame intervals and pairs of them, this turns them into numbers."""
import numpy as np

import common


def close(got, want, rtol=1e-10, atol=1e-12):
    """Correlations are computed in full precision."""
    return common.close(got, want, rtol, atol)


def scene(rng, nf, kind, wide=False):
    """Images and a label array.  Returns (images, labels, roi ids ascending).
    wide: counts up to the limits of narrow number types, larger images, any memory layout, many regions
    (wide="rois": only that)."""
    shape = [(3, 4), (1, 5), (4, 3), (5, 2)][rng.randint(4)]
    if wide and rng.randint(8) == 0:
        shape = [(11, 17), (23, 9), (29, 31)][rng.randint(3)]
    labels = np.zeros(shape, dtype=int)
    ids = [(1, 2), (5, 3), (1,), (2, 9, 4), (7,)][rng.randint(5)]
    many = wide and rng.randint(7) == 0
    if many:
        # many regions, with whatever numbers
        shape = (7, 9)
        labels = np.zeros(shape, dtype=int)
        k = rng.randint(9, 30)
        ids = tuple(rng.permutation([40, 300, 70000][rng.randint(3)])[:k] + 1)
    flat = np.zeros(labels.size, dtype=int)
    places = rng.permutation(labels.size)
    n = max(len(ids), rng.randint(len(ids), labels.size))
    if rng.randint(5) == 0:
        n = labels.size  # no background
    for j in range(n):
        flat[places[j]] = ids[j % len(ids)]
    labels = flat.reshape(shape)
    if kind == "float":
        imgs = rng.randint(1, 50, (nf,) + shape) / [4.0, 4.0, 3.0][rng.randint(3)] * 2.0 ** (0 if not wide else [0, 0, -40, -100, 60][rng.randint(5)])
    else:
        imgs = rng.randint(1, 12, (nf,) + shape).astype([np.int64, np.int32, np.uint16][rng.randint(3)])
    if wide is True and rng.randint(3) == 0:
        t = [np.uint8, np.int16, np.uint16, np.int32, np.float32][rng.randint(5)]
        top = {np.uint8: 255, np.int16: 32767, np.uint16: 65535}.get(t, 10**6)
        imgs = rng.randint(1, top, (nf,) + shape).astype(t)
        if rng.randint(3) == 0:
            imgs = np.asfortranarray(imgs)
        if rng.randint(3) == 0 and not many:
            labels = labels.astype([np.uint8, np.int16, np.int64][rng.randint(3)])
        if rng.randint(4) == 0:
            labels = np.asfortranarray(labels)
    if wide is True and rng.randint(5) == 0:
        # few photons: most pixels of a frame see none
        imgs = imgs * (rng.randint(0, 3, imgs.shape) == 0).astype(imgs.dtype)
    if wide is True and kind == "float" and imgs.dtype == float and rng.randint(6) == 0:
        # a dark level was subtracted: some pixels are below zero
        imgs = imgs * np.where(rng.randint(0, 9, imgs.shape) == 0, -0.25, 1)
        for im in imgs:
            for i in ids:
                # a region that sees nothing on the whole has no correlation
                if im[labels == i].sum() <= 0:
                    im[labels == i] = np.abs(im[labels == i])
    return imgs, labels, sorted(ids)


def block_mean(imgs, b):
    """Interval <<first,last>> (1-based) of frames, averaged."""
    return np.asarray(imgs[b[0] - 1:b[1]], dtype=float).mean(axis=0)


def one_time_rows(rows, imgs, labels, ids):
    """Rows of the specification -> (g2, lags) as the user sees them."""
    g2, lags = [], []
    for row in rows:
        if not row["pairs"]:
            break
        line = []
        stop = False
        for r in ids:
            m = labels == r
            P = [block_mean(imgs, p[0])[m] for p in row["pairs"]]
            F = [block_mean(imgs, p[1])[m] for p in row["pairs"]]
            past = np.mean([p.mean() for p in P])
            fut = np.mean([f.mean() for f in F])
            both = np.mean([(p * f).mean() for p, f in zip(P, F)])
            if past == 0:
                stop = True
                break
            with np.errstate(all="ignore"):
                line.append(np.float64(both) / np.float64(past * fut))
        if stop:
            break
        g2.append(line)
        lags.append(row["lag"])
    return np.array(g2, dtype=float).reshape(len(g2), len(ids)), np.array(lags)


def two_time_matrix(cells, imgs, labels, ids, nf):
    out = np.zeros((len(ids), nf, nf))
    for t1, t2, pr in cells:
        P, F = block_mean(imgs, pr[0]), block_mean(imgs, pr[1])
        for k, r in enumerate(ids):
            m = labels == r
            with np.errstate(all="ignore"):
                v = (P[m] * F[m]).sum() * m.sum() / (P[m].sum() * F[m].sum())
            out[k, t1 - 1, t2 - 1] = out[k, t2 - 1, t1 - 1] = v
    return out
