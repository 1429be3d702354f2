"""C03: interrupting and resuming a correlation changes nothing."""
import copy

import numpy as np

import C01
import C02
from common import is_raised, nonvacuous
from xpcs import close, one_time_rows, scene, two_time_matrix


def chunks(n, splits):
    edges = [0] + list(splits) + [n]
    return list(zip(edges[:-1], edges[1:]))


def run(ck):
    from skbeam.core.correlation import lazy_one_time, lazy_two_time, two_time_state_to_results

    rng = ck.np_rng
    # ---- one time
    models = [(1, 2, 6, 0, 5), (1, 4, 7, 1, 2), (2, 2, 7, 1, 2), (3, 2, 9, 0, 3), (2, 4, 11, 0, 2), (3, 4, 18, 0, 2)]
    if ck.thorough:
        models += [(3, 2, 10, 1, 4), (4, 2, 20, 0, 3), (2, 6, 20, 0, 3), (3, 4, 24, 1, 2), (2, 4, 9, 9, 2)]
    #        one long history each, interrupted late and often
    long = [(3, 2, 140, 0, 0), (2, 4, 140, 0, 0), (5, 2, 100, 0, 0)]
    for nl, nb, nf, bad, split in models + long:
        if split:
            first = 0
            table = C01.run_model(ck, nl, nb, nf, bad, split)
        else:
            first = nf - 3
            at = {64, nf - 1} | set(ck.rng.sample(range(1, nf), 3))
            for splits in (at, {nf + 1}):
                t = C01.run_model(ck, nl, nb, nf, 0, bad_at={nf + 1}, split_at=splits, emit_from=first)
                table = t if splits is at else {**table, **t}
        leaves = [k for k in table if len(k[0]) == nf]
        nonvacuous(any(k[1] for k in leaves), "no interrupted behaviour")
        # the model's own verdict: the rows do not depend on the interruptions
        for good, splits in leaves:
            nonvacuous(table[(good, splits)] == table[(good, ())], "interruption shows in the model")
        ck.rng.shuffle(leaves)
        for good, splits in leaves[: ck.size(90, 1500)] * (1 if split else 3):
            imgs, labels, ids = scene(rng, nf, ["float", "int"][rng.randint(2)], True)
            frames = [im if g else np.full(im.shape, np.nan) for im, g in zip(imgs, good)]
            clean = np.array(frames, dtype=float)
            case = dict(num_levels=nl, num_bufs=nb, good=list(good), splits=list(splits), labels=labels, images=imgs)

            other = None if rng.randint(3) else np.roll(np.array(frames, dtype=float), 1, axis=0)[:, ::-1]
            keep = rng.randint(3) == 0
            case.update(another_run_meanwhile=other is not None, resumed_from_a_copy=keep)

            def run_all():
                state, out, raw = None, [], []
                # another analysis, of other images, goes on in the same process
                aside = None if other is None else lazy_one_time(iter(other), nl, nb, labels)
                for a, b in chunks(nf, splits):
                    if keep and state is not None:
                        # the copy is what is resumed; what becomes of the original does not matter
                        old, state = state, copy.deepcopy(state)
                        list(lazy_one_time(iter(frames[:3]), nl, nb, labels, internal_state=old))
                    kw = {} if state is None else {"internal_state": state}
                    for r in lazy_one_time(iter(frames[a:b]), nl, nb, labels, **kw):
                        out.append((np.array(r.g2), np.array(r.lag_steps)))
                        raw.append((r.g2, r.lag_steps))
                        state = r.internal_state
                        if aside is not None:
                            next(aside)
                return out, raw

            got = ck.real(run_all)
            if is_raised(got):
                ck.fail("a resumed run is processed", error=got, **case)
                continue
            out, raw = got
            ck.expect(len(out) == nf, "one result per frame", got=len(out), **case)
            for t, (g2, lags) in enumerate(out):
                if t + 1 < first:
                    continue
                w2, wl = one_time_rows(table[(good[: t + 1], tuple(s for s in splits if s <= t))], clean, labels, ids)
                ck.expect(close(g2, w2) and close(lags, wl), "one-time: resumed run equals the uninterrupted one",
                          after=t + 1, got=[g2, lags], want=[w2, wl], **case)
                ck.expect(close(raw[t][0], g2) and close(raw[t][1], lags),
                          "a result handed out is not changed by later frames", after=t + 1, got=raw[t], want=[g2, lags], **case)
            ck.traced()
            ck.sample(kind="one-time", levels=nl, bufs=nb, splits=list(splits), good=list(good))
    # ---- two time
    models = [(1, 4, 6, 2), (2, 2, 7, 2), (2, 4, 11, 1), (3, 2, 12, 1), (3, 4, 18, 1)]
    if ck.thorough:
        models += [(1, 2, 6, 5), (3, 2, 14, 2), (4, 2, 20, 1), (2, 6, 20, 1)]
    for nl, nb, nf, split in models + [(2, 4, 70, 0), (6, 2, 70, 0)]:
        first = 0
        if split:
            table = C02.run_model(ck, nl, nb, nf, split)
        else:
            first = nf - 2
            at = {64} | set(ck.rng.sample(range(1, nf), 3))
            table = C02.run_model(ck, nl, nb, nf, event_at=sorted(at), emit_from=first)
        leaves = [k for k in table if k[0] == nf]
        nonvacuous(any(k[1] and k[2] for k in leaves), "no interrupted and converted behaviour")
        ck.rng.shuffle(leaves)
        for n, splits, convs in leaves[: ck.size(60, 1000)] * (1 if split else 3):
            imgs, labels, ids = scene(rng, nf, ["float", "int"][rng.randint(2)], True)
            case = dict(num_levels=nl, num_bufs=nb, splits=list(splits), convs=list(convs), labels=labels, images=imgs)

            if rng.randint(3) == 0:
                imgs = C02.deaf(rng, imgs, labels)
            other = None if rng.randint(3) else imgs[::-1, ::-1].astype(float)
            keep = rng.randint(3) == 0
            case.update(images=imgs, another_run_meanwhile=other is not None, resumed_from_a_copy=keep)

            def run_two():
                state, out, t = None, [], 0
                aside = None if other is None else lazy_two_time(labels, iter(other), nf, nb, nl)
                for a, b in chunks(nf, splits):
                    if keep and state is not None:
                        old, state = state, copy.deepcopy(state)
                        two_time_state_to_results(old)
                    kw = {} if state is None else {"two_time_internal_state": state}
                    for s in lazy_two_time(labels, iter(imgs[a:b]), nf, nb, nl, **kw):
                        t += 1
                        state = s
                        if aside is not None:
                            next(aside)
                        m = np.array(s.g2)
                        out.append(np.tril(m) + np.swapaxes(np.tril(m, -1), 1, 2))
                        if t in convs:
                            two_time_state_to_results(s)
                return out, np.array(two_time_state_to_results(state).g2)

            got = ck.real(run_two)
            if is_raised(got):
                ck.fail("a resumed run is processed", error=got, **case)
                continue
            out, final = got
            for t, m in enumerate(out):
                if t + 1 < first:
                    continue
                w = two_time_matrix(
                    table[(t + 1, tuple(s for s in splits if s <= t), tuple(s for s in convs if s <= t))], imgs, labels, ids, nf)
                ck.expect(close(m, w), "two-time: resumed run equals the uninterrupted one", after=t + 1, got=m, want=w, **case)
            want = two_time_matrix(table[(nf, splits, tuple(c for c in convs if c < nf))], imgs, labels, ids, nf)
            ck.expect(close(final, want), "two-time: converting early changes nothing", got=final, want=want, **case)
            ck.traced()
            ck.sample(kind="two-time", levels=nl, bufs=nb, splits=list(splits), convs=list(convs))
