"""X02: spectra fitted as sums of known profiles."""
import copy

import numpy as np
from X01 import area_name, base, compton, elastic, one, some_peaks, value
from X03 import FIRST, LINES, cross, excited, pool

from common import close, is_raised, nonvacuous, same_ints


def run(ck):
    from skbeam.core.fitting import xrf_model as xm
    from skbeam.core.fitting.background import snip_method
    from skbeam.core.fitting.base import parameter_data as pd

    rng = ck.np_rng
    exact(ck, xm, pd, rng)
    for _ in range(ck.size(10, 60)):
        matrix(ck, xm, pd, rng)
    for _ in range(ck.size(8, 50)):
        spectrum(ck, xm, pd, snip_method, rng)
    maps(ck, xm, pd, snip_method, rng)
    ratios(ck, xm, pd, rng)


def exact(ck, xm, pd, rng):
    cases = []
    for _ in range(ck.size(120, 1200)):
        m, n = int(rng.randint(3, 6)), int(rng.randint(1, 4))
        a = rng.randint(0, 3, (m, n))
        ys = []
        for _ in range(int(rng.randint(1, 7))):
            ys.append((a.dot(rng.randint(0, 3, n)) if rng.randint(3) == 0 else rng.randint(0, 6, m)).tolist())
        cases.append(dict(op="nnls", a=a.tolist(), ys=ys, w=(rng.randint(1, 3, m) if rng.randint(2) else np.ones(m, int)).tolist()))
    for _ in range(ck.size(60, 500)):
        x = rng.randint(-5, 12, int(rng.randint(1, 12)))
        if rng.randint(2):
            x = np.sort(x)
        lo, hi = sorted(int(v) for v in rng.randint(-6, 14, 2))
        cases.append(dict(op="trim", x=x.tolist(), lo=lo, hi=hi))
    while len(cases) < ck.size(240, 2200):
        n = int(rng.randint(1, 40))
        a0, a1 = int(rng.randint(-20, 21)), int(rng.choice([4, 8, 16, 32]))
        lo, hi = sorted(int(v) for v in rng.randint(-50, 50 + 40 * a1, 2))
        if (2 * (lo - a0) + a1) % (2 * a1) == 0 or (2 * (hi - a0) + a1) % (2 * a1) == 0:
            continue
        cases.append(dict(op="range", n=n, a0=a0, a1=a1, lo=lo, hi=hi))
    r = ck.tlc("XrfFit", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Exists Least Exact Report\nCONSTANTS Cases <- CasesDef\n",
               data=cases, defs="CasesDef == Data", workers=4)
    by = {}
    for e in r.out:
        by.setdefault(e["case"], {})[e.get("k", 1)] = e
    pools = 0
    full = [0, 0]
    for i, cs in enumerate(cases):
        es = by[i + 1]
        if cs["op"] == "trim":
            x = np.array(cs["x"]).astype([int, float][rng.randint(2)])
            y = rng.permutation(len(x)) * 1.5
            idx = np.array(es[1]["kept"], int) - 1
            got = ck.real(xm.trim, x, y, cs["lo"], cs["hi"])
            ck.expect(not is_raised(got) and len(got) == 2 and close(got[0], x[idx]) and close(got[1], y[idx]), "trim: the points within the bounds, ends included",
                      case=cs, got=got)
            ck.traced()
            continue
        if cs["op"] == "range":
            y = rng.permutation(cs["n"]) * 2.5
            idx = np.array(es[1]["kept"], int)
            got = ck.real(xm.define_range, y, cs["lo"] / 16.0, cs["hi"] / 16.0, cs["a0"] / 16.0, cs["a1"] / 16.0)
            ck.expect(not is_raised(got) and len(got) == 2 and same_ints(got[0], idx) and close(got[1], y[idx]),
                      "define_range: the channels between the energies", case=cs, got=got, want=idx)
            ck.traced()
            continue
        a, w = np.array(cs["a"]), np.array(cs["w"])
        if es[1]["x"] == []:
            full[0] += 1
            continue
        full[1] += 1
        ones = bool((w == 1).all())
        for k, ylist in enumerate(cs["ys"]):
            e = es[k + 1]
            y = np.array(ylist).astype([int, float][rng.randint(2)])
            u = 2.0 ** int([0, 0, -12, -18, 20, 40][rng.randint(6)]) if y.dtype == float else 1
            # weights of any size
            v = 4.0 ** int([0, 0, -20, -12, 12][rng.randint(5)])
            u = u * [1, 1 / 3.0, 0.7][rng.randint(3)] if y.dtype == float else 1      # and numbers without a short binary form
            y = y * u
            want = np.array(e["x"]) / e["den"]
            res = np.sqrt(max(e["left"], 0) / e["den"])
            part = [1, 1, 1 / 3.0, 0.1][rng.randint(4)]
            args = (y, a.astype([int, float][rng.randint(2)]) * part) + ((w.astype([int, float, np.uint8, np.int16][rng.randint(4)]) if v == 1 else w * v,) if not ones or rng.randint(2) else ())
            v = v if len(args) == 3 else 1.0
            keep = [np.array(v) for v in args]
            got = ck.real(xm.nnls_fit, *args)
            ck.expect(not is_raised(got) and close(np.asarray(got[0]) / u * part, want, 1e-9, 1e-9) and abs(got[1] / u / np.sqrt(v) - res) < 1e-6,
                      "nnls_fit: the amounts, none negative, that leave least", case=cs, spectrum=ylist, got=got, want=[want, res])
            ck.expect(all(np.array_equal(p, q) for p, q in zip(keep, args)), "nnls_fit: leaves its arguments alone", case=cs)
            ck.traced()
        if ones:
            lines(ck, xm, pd, rng, cs, a, es, pools)
            pools += 1
    nonvacuous(full[1] > 40 and pools > 15, "regular fits %s" % full)


def lines(ck, xm, pd, rng, cs, a, es, pools):
    """Rows of a map, without background."""
    n = a.shape[1]
    ys = np.array(cs["ys"], float)
    good = [k for k in range(len(ys)) if es[k + 1]["sst"] != 0]
    if not good:
        return
    want = np.array([list(np.array(es[k + 1]["x"]) / es[k + 1]["den"]) + [0, 1 - (es[k + 1]["left"] / es[k + 1]["den"]) / (es[k + 1]["sst"] / a.shape[0])]
                     for k in good])
    p = pd.get_para()
    rows = ys[good].astype([float, np.int64, np.int16][rng.randint(3)])
    u = 2.0 ** int([0, -12, -18, 20][rng.randint(4)]) if rows.dtype == float else 1
    got = ck.real(xm.fit_per_line_nnls, rows * u, a.astype(float), p, False)
    if not is_raised(got) and np.shape(got) == want.shape:
        got = np.array(got)
        got[:, :n] /= u
    ck.expect(not is_raised(got) and close(got, want, 1e-7, 1e-7), "a row of a map: amounts, no background, and the share explained", case=cs, got=got, want=want)
    if pools < ck.size(3, 12):
        # a map: the spectra in some order, in rows
        rr, cc = (int(rng.randint(1, 4)), int(rng.randint(1, 4))) if pools else (71, 2)
        idx = rng.randint(0, len(good), (rr, cc))
        got = ck.real(xm.fit_pixel_multiprocess_nnls, ys[good][idx], a.astype(float), p, *([] if rng.randint(2) else [False]))
        if ck.expect(not is_raised(got) and close(got, want[idx], 1e-7, 1e-7), "a map: each pixel's answer at its place", case=cs, pixels=idx, got=got, want=want[idx]):
            names = [["Fe_K", "user_peak1", "compton"], ["Pt_M", "Pb_L", "Fe_K"], ["Pt_L", "U_M", "Si_Ka1-Si_Ka1"]][pools % 3][:n]
            p["coherent_sct_energy"]["value"] = 15.0
            alls = sum(pool(), [])
            for first in (False, True):
                area = ck.real(xm.calculate_area, names, a, got, p, *([] if not first and rng.randint(2) else [first]))
                wm = {nm: want[idx][:, :, i] * a[:, i].sum() * (share(nm, 15.0) if first and nm in alls else 1) for i, nm in enumerate(names)}
                wm["snip_bkg"], wm["r_squared"] = want[idx][:, :, -2], want[idx][:, :, -1]
                ck.expect(isinstance(area, dict) and set(area) == set(wm) and all(close(area[q], wm[q], 1e-7, 1e-7) for q in wm),
                          "calculate_area: amount times the area of the profile, or of its first line", case=cs, first=first, got=area, want=wm)
        ck.traced()


def share(name, energy):
    """The part of the first line in the cross section of the series."""
    el, series = name.split("_")
    return cross(el, FIRST[series], energy) / sum(cross(el, t, energy) for t in LINES[series])


def matrix(ck, xm, pd, rng):
    p = base(pd, rng)
    energy, eps = p["coherent_sct_energy"]["value"], p["non_fitting_values"]["epsilon"]
    peaks = some_peaks(rng, energy, int(rng.randint(0, 5)))
    areas = {}
    default = float(rng.choice([100, 1e5]))
    for nm in peaks:
        areas[nm] = default
        if rng.randint(3) == 0:
            areas[nm] = float(rng.uniform(1e3, 1e5))
            p[area_name(nm)] = dict(value=areas[nm], bound_type="none", min=0.0, max=1e9)
    x = np.arange(int(rng.randint(0, 50)), 900, 3)
    keep = copy.deepcopy(p)
    got = ck.real(xm.construct_linear_model, x.astype([int, float, np.int16, np.uint16][rng.randint(4)]), p, peaks, *([] if default == 100 and rng.randint(2) else [default]))
    lit = [nm for nm in peaks if "-" in nm or "user" in nm or excited(nm, energy)]
    g = value(p)
    cols = [one(x, g, eps, nm, energy, areas[nm]) for nm in lit] + [compton(x, g, eps), elastic(x, g, eps)]
    wa = dict({nm: areas[nm] for nm in lit}, compton=g["compton_amplitude"], elastic=g["coherent_sct_amplitude"])
    info = dict(peaks=peaks, energy=energy, areas=areas)
    if not ck.expect(not is_raised(got) and list(got[0]) == lit + ["compton", "elastic"], "construct_linear_model: the peaks excited, then the scattering",
                     got=got if is_raised(got) else got[0], want=lit, **info):
        return
    ck.expect(close(got[1], np.array(cols).T, 1e-7, 1e-8 * np.max(cols)), "construct_linear_model: a column each", got=got[1], **info)
    ck.expect(set(got[2]) == set(wa) and all(abs(got[2][q] - wa[q]) < 1e-9 * wa[q] for q in wa), "construct_linear_model: the areas of the columns", got=got[2],
              want=wa, **info)
    ck.expect(p == keep, "construct_linear_model: parameters are left alone", **info)
    ck.traced()


def spectrum(ck, xm, pd, snip, rng):
    from scipy.optimize import nnls

    p = base(pd, rng)
    p["non_fitting_values"]["background_width"] = float(rng.choice([0.3, 0.5, 1.0]))
    energy, eps = p["coherent_sct_energy"]["value"], p["non_fitting_values"]["epsilon"]
    alls = rng.randint(6) == 0
    peaks = sum(pool(), []) if alls else some_peaks(rng, energy, int(rng.randint(1, 5)))
    if not alls and rng.randint(2):
        # a line outside of the range, so that nothing comes of it
        peaks.append("Li_K")
    x = np.arange(20, 900, 1)
    g = value(p)
    lit = [nm for nm in peaks if "-" in nm or "user" in nm or excited(nm, energy)]
    cols = np.array([one(x, g, eps, nm, energy, 100.0) for nm in lit] + [compton(x, g, eps), elastic(x, g, eps)]).T
    y = cols.dot(rng.choice([0, 0.5, 2.0, 5.0], cols.shape[1])) + 20 * np.exp(-x / 300.0)
    y = rng.poisson(y).astype([int, float][rng.randint(2)])
    small = 1.0
    if y.dtype == float and rng.randint(3) == 0:
        # spectra counted in a small unit
        small = [1e-5, 1e-8][rng.randint(2)]
        y = y * small
    w = None if rng.randint(2) else 1 / np.sqrt(y + 1.0 * small)
    keep = copy.deepcopy(p)
    info = dict(peaks=None if alls else peaks, energy=energy, weights=w is not None)
    xr = x.astype([int, float, np.int16, np.uint16][rng.randint(4)])
    got = ck.real(xm.linear_spectrum_fitting, xr, y, p, *([None] if alls and rng.randint(2) else [] if alls else [peaks]), **({} if w is None else dict(weights=w)))
    bg = snip(y, g["e_offset"], g["e_linear"], g["e_quadratic"], width=p["non_fitting_values"]["background_width"])
    sw = np.ones(len(x)) if w is None else np.sqrt(w)
    out, _ = nnls(cols * sw[:, None], (y - bg) * sw)
    if not ck.expect(not is_raised(got) and len(got) == 3, "linear_spectrum_fitting: an answer", got=got, **info):
        return
    xe, res, areas = got
    ck.expect(close(xe, g["e_offset"] + g["e_linear"] * x + g["e_quadratic"] * x.astype(float) ** 2), "energies by the calibration", got=xe, **info)
    names = lit + ["compton", "elastic"]
    unit = dict({nm: 100.0 for nm in lit}, compton=g["compton_amplitude"], elastic=g["coherent_sct_amplitude"])
    ck.expect(set(res) == set(areas) and "background" in res and set(res) <= set(names + ["background"]), "a profile and an area each", got=sorted(res), **info)
    ck.expect(close(res["background"], bg) and abs(areas["background"] - bg.sum()) < 1e-6 * (1 + bg.sum()), "the background taken off", got=res["background"], **info)
    scale = np.abs(y).max()
    if not alls:
        fit = cols.dot(out)
        mine = sum([v for k, v in res.items() if k != "background"], np.zeros(len(x)))
        ck.expect(close(mine, fit, 1e-5, 1e-5 * scale), "the profiles add up to the best fit of the spectrum less background", got=mine, want=fit, **info)
        for i, nm in enumerate(names):
            prof = cols[:, i] * out[i]
            if nm not in res:
                ck.expect(np.abs(prof).max() < 1e-5 * scale, "only profiles that are nil are left out", name=nm, **info)
                continue
            # profiles may be hard to tell apart
            others = np.delete(cols, i, 1)
            top = cols[:, i].max()
            apart = top > 0 and np.linalg.norm(cols[:, i] - others.dot(np.linalg.lstsq(others, cols[:, i], rcond=None)[0])) > 1e-3 * np.linalg.norm(cols[:, i])
            if apart:
                ck.expect(close(res[nm], prof, 1e-4, 1e-5 * scale), "each profile with its amount", name=nm, got=res[nm], want=prof, **info)
                ck.expect(abs(areas[nm] - out[i] * unit[nm]) < 1e-4 * (abs(out[i] * unit[nm]) + 1e-3 * small * unit[nm]), "each area", name=nm, got=areas[nm], want=out[i] * unit[nm], **info)
    else:
        r1 = np.linalg.norm((sum([v for k, v in res.items() if k != "background"], np.zeros(len(x))) - (y - bg)) * sw)
        r0 = np.linalg.norm((cols.dot(out) - (y - bg)) * sw)
        ck.expect(abs(r1 - r0) < 1e-4 * (r0 + small), "all elements: the best fit", got=r1, want=r0, **info)
    ck.expect(p == keep, "linear_spectrum_fitting: parameters are left alone", **info)
    ck.traced()


def maps(ck, xm, pd, snip, rng):
    """Maps with background."""
    from scipy.optimize import nnls

    for n in range(ck.size(3, 9)):
        p = pd.get_para()
        p["e_linear"]["value"] = 0.02
        p["e_quadratic"]["value"] = float(rng.choice([0, 1e-7]))
        p["non_fitting_values"]["background_width"] = float(rng.choice([0.3, 0.5, 1.0]))
        x = np.arange(0, 600)
        names, mat, _ = xm.construct_linear_model(x, p, ["Fe_K", "Ca_K"])
        data = mat.dot(rng.uniform(0, 3, (mat.shape[1], 6))).T
        data = rng.poisson(data / data.max() * 50000 + 30).reshape(2, 3, -1).astype([np.int64, np.uint16, float][n % 3])
        want = []
        for y in data.reshape(6, -1):
            bg = snip(y, p["e_offset"]["value"], p["e_linear"]["value"], p["e_quadratic"]["value"], width=p["non_fitting_values"]["background_width"])
            out, res = nnls(mat, y - bg)
            want.append(list(out) + [bg.sum(), 1 - res**2 / np.sum((y - y.mean()) ** 2)])
        want = np.array(want).reshape(2, 3, -1)
        got = ck.real(xm.fit_pixel_multiprocess_nnls, data, mat, p, use_snip=True)
        ck.expect(not is_raised(got) and close(got, want, 1e-6, 1e-6), "a map: amounts, background taken off, and the share explained", got=got, want=want)
        ck.traced()


def ratios(ck, xm, pd, rng):
    alls = sum(pool(), [])
    for _ in range(ck.size(80, 600)):
        nm = str(rng.choice(alls))
        energy = float(rng.uniform(1.5, 40))
        if excited(nm, energy):
            got = ck.real(xm.get_relative_cs_ratio, nm if rng.randint(2) else nm[:-1] + nm[-1].lower(), energy)
            ck.expect(not is_raised(got) and abs(got - share(nm, energy)) < 1e-9, "get_relative_cs_ratio: the first line's part of the series", line=nm,
                      energy=energy, got=got, want=share(nm, energy))
        p = base(pd, rng)
        y = rng.poisson(100, 50)
        ratio = float(rng.uniform(0, 0.1))
        esc = float(rng.choice([1.73998, 9.876]))
        g = value(p)
        i = np.arange(50.0)
        got = ck.real(xm.compute_escape_peak, y if rng.randint(2) else y.astype(float), ratio, p, *([] if esc == 1.73998 else [esc]))
        ck.expect(not is_raised(got) and close(got[0], g["e_offset"] + g["e_linear"] * i + g["e_quadratic"] * i**2 - esc) and close(got[1], ratio * y),
                  "compute_escape_peak: a part of the spectrum, lower by the escape energy", got=got, ratio=ratio, escape=esc)
        ck.traced()
