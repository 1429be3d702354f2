"""X01: the model of a fluorescence spectrum."""
import copy
import math

import numpy as np
from X03 import FIRST, LINES, SUFFIX, Results, cross, energy_of, excited, pool

from common import close, is_raised, nonvacuous

GLOBAL = ["e_offset", "e_linear", "e_quadratic", "fwhm_offset", "fwhm_fanoprime"]
F = 2 * math.sqrt(2 * math.log(2))
ERFC = np.vectorize(math.erfc)


def peak(x, g, eps, area, center, pos, width, ratio, adj):
    e = g["e_offset"] + g["e_linear"] * x + g["e_quadratic"] * x**2
    c = center + pos
    s = width + math.sqrt((g["fwhm_offset"] / F) ** 2 + c * eps * g["fwhm_fanoprime"])
    return area * ratio * adj / (s * math.sqrt(2 * math.pi)) * np.exp(-0.5 * ((e - c) / s) ** 2)


def tail(e, c, s, gamma):
    d = (e - c) / s
    return np.exp(np.minimum(d, 0) / gamma) * ERFC(d / math.sqrt(2) + 1 / (gamma * math.sqrt(2))) / (2 * gamma * s * math.exp(-0.5 / gamma**2))


def compton(x, p, eps):
    e = p["e_offset"] + p["e_linear"] * x + p["e_quadratic"] * x**2
    inc = p["coherent_sct_energy"]
    c = inc / (1 + inc / 511.0 * (1 - math.cos(math.radians(p["compton_angle"]))))
    s = math.sqrt((p["fwhm_offset"] / F) ** 2 + c * eps * p["fwhm_fanoprime"])
    sg = s * p["compton_fwhm_corr"]
    y = np.exp(-0.5 * ((e - c) / sg) ** 2) / (sg * math.sqrt(2 * math.pi))
    y = y + p["compton_f_step"] * ERFC((e - c) / (math.sqrt(2) * s)) / (2 * c)
    y = y + p["compton_f_tail"] * tail(e, c, s, p["compton_gamma"])
    y = y + p["compton_hi_f_tail"] * tail(-e, -c, s, p["compton_hi_gamma"])
    return p["compton_amplitude"] * y / (1 + p["compton_f_step"] + p["compton_f_tail"] + p["compton_hi_f_tail"])


def elastic(x, p, eps):
    return peak(x, p, eps, p["coherent_sct_amplitude"], p["coherent_sct_energy"], 0, 0, 1, 1)


def base(pd, rng):
    """Random parameters of the instrument."""
    p = pd.get_para()
    p["coherent_sct_energy"]["value"] = float(rng.choice([8.0, 10.0, 12.0, 16.0, 35.0]))
    p["e_offset"]["value"] = float(rng.uniform(-0.02, 0.05))
    p["e_linear"]["value"] = float(rng.uniform(0.018, 0.022))
    p["e_quadratic"]["value"] = float(rng.choice([0, 1e-7, -2e-7]))
    p["fwhm_offset"]["value"] = float(rng.uniform(0.1, 0.2))
    p["fwhm_fanoprime"]["value"] = float(rng.choice([1e-6, 1e-4, 5e-4]))
    p["compton_angle"]["value"] = float(rng.choice([60.0, 90.0, 145.0]))
    p["compton_f_step"]["value"] = float(rng.choice([0, 1e-5, 0.0005, 0.01, 0.2]))
    p["compton_f_tail"]["value"] = float(rng.choice([0.05, 0.3]))
    p["compton_hi_f_tail"]["value"] = float(rng.choice([0.1, 0.02]))
    p["compton_gamma"]["value"] = float(rng.uniform(1, 4))
    p["compton_hi_gamma"]["value"] = float(rng.uniform(0.8, 2))
    p["compton_fwhm_corr"]["value"] = float(rng.uniform(1, 1.6))
    p["compton_amplitude"]["value"] = float(rng.uniform(1e4, 1e5))
    p["coherent_sct_amplitude"]["value"] = float(rng.uniform(1e4, 1e5))
    for k, v in p.items():
        if k != "non_fitting_values":
            v["min"], v["max"] = v["value"] - 1e3 - abs(v["value"]), v["value"] + 1e3 + abs(v["value"])
    p["non_fitting_values"]["epsilon"] = float(rng.choice([2.96, 3.51, 3.85]))
    return p


def value(p):
    return {k: v["value"] for k, v in p.items() if k != "non_fitting_values"}


def run(ck):
    from skbeam.core.fitting import xrf_model as xm
    from skbeam.core.fitting.base import parameter_data as pd

    rng = ck.np_rng
    r = ck.tlc("XrfModel", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OneArea Acts Only Report\nCONSTANTS Kinds <- KindsDef\n"
               "  Bounds <- BoundsDef\n", data=[], workers=4,
               defs='KindsDef == {"K", "L", "M", "user", "pileup"}\nBoundsDef == {%s}' % ('"fixed", "none", "lo", "hi", "lohi"' if ck.thorough else '"fixed", "lohi"'))
    by = {}
    for e in r.out:
        by.setdefault((e["kind"], len(e["rows"])), []).append(e)
    n = ck.size(22, 120)
    count = 0
    for key in sorted(by):
        for i in rng.permutation(len(by[key]))[:n]:
            e = by[key][i]
            if not ck.thorough:
                e = dict(e)
                if e["bound"] == "lohi":
                    e["bound"] = str(rng.choice(["none", "lo", "hi", "lohi"]))
            count += single(ck, xm, pd, rng, e)
    nonvacuous(count > 8 * n, "models: %d" % count)
    for _ in range(ck.size(12, 80)):
        assembled(ck, xm, pd, rng)
    for _ in range(ck.size(2, 12)):
        fit(ck, xm, pd, rng)
    scattering(ck, xm, rng)
    helpers(ck, xm, pd, rng)


def choose(rng, kind, want, energy):
    """A peak of that kind, with at least the lines wanted excited; its lines by number."""
    if kind == "user":
        return ["user_peak2", "User_7"][rng.randint(2)], {1: [None]}
    if kind == "pileup":
        parts = [str(v) for v in rng.choice(["Si_Ka1", "Fe_Ka1", "Ce_La1", "Ar_Kb1", "S_K", "Ca_Kb", "Pt_M", "Au_Ma2", "Ar_kA2"], 2)]
        return "-".join(parts), {1: [None]}
    names = pool()["KLM".index(kind)]
    for _ in range(200):
        nm = str(rng.choice(names))
        act = excited(nm, energy)
        if not act:
            if want == []:
                return nm, {}
            continue
        groups = {1: act[:1], 2: [t for t in act if t == LINES[kind][1]], 3: [t for t in act[1:] if t != LINES[kind][1]]}
        if want and all(groups[k] for k in want):
            return nm, groups
    return None, None


def single(ck, xm, pd, rng, e):
    p = base(pd, rng)
    if e["kind"] in ("K", "L") and not e["rows"]:
        p["coherent_sct_energy"]["value"] = 8.0
    if e["kind"] == "M" and not e["rows"]:
        p["coherent_sct_energy"]["value"] = 1.2
    if e["kind"] == "user" and rng.randint(4) == 0:
        p["coherent_sct_energy"]["value"] = 3.0        # user peaks may lie above the beam
    energy = p["coherent_sct_energy"]["value"]
    name, groups = choose(rng, e["kind"], e["lines"] if 1 in e["lines"] else [], energy)
    if name is None:
        return 0
    el = name.split("_")[0]
    eps = p["non_fitting_values"]["epsilon"]
    pre = {"user": name + "_", "pileup": "pileup_" + name.replace("-", "_") + "_"}.get(e["kind"])

    def prefix(t):
        return pre if pre else el + "_" + t + "_"

    # parameters of the user's, by prefix
    mine = {}
    rows = []
    # every excited line has a row: the lines the case does not speak of have no parameters
    for k in sorted(groups):
        for t in groups[k]:
            ref = [w for w in e["rows"] if w["line"] == k]
            rows.append((k, t, ref[0] if ref else None))
    for k, w in e["has"]:
        for t in groups.get(k, []):
            v = {"pos": rng.uniform(-0.05, 0.05), "width": rng.uniform(-0.01, 0.02), "ratio": rng.uniform(0.2, 3) if rng.randint(4) else 0.02, "area": rng.uniform(1e3, 1e5)}[w]
            lim = {"pos": 0.06, "width": 0.03, "ratio": 4.0, "area": 1e6}[w]
            p[prefix(t) + SUFFIX[w]] = dict(bound_type=e["bound"], min=-lim if w in ("pos", "width") else 0.01, max=lim, value=float(v))
            mine[t, w] = p[prefix(t) + SUFFIX[w]]
    keep = copy.deepcopy(p)
    area = float(rng.choice([100, 1e5, 321.5]))
    x = np.arange(0, 900, 3)
    # channels are numbers of any type
    xr = x.astype([int, float, np.int16, np.uint16, np.int32][rng.randint(5)])
    info = dict(channels=str(xr.dtype), element=name, energy=energy, params={k: v["value"] for k, v in p.items() if k not in pd.get_para()}, bound=e["bound"], area=area)
    ms = ck.real(xm.ModelSpectrum, p, [name])
    if not ck.expect(not is_raised(ms), "ModelSpectrum: made", got=ms, **info):
        return 1
    m = ck.real(ms.setup_element_model, name, area) if rng.randint(2) else ck.real(ms.setup_element_model, name, default_area=area)
    if not e["rows"] and e["kind"] in FIRST:
        ck.expect(m is None, "a series that the beam does not excite has no model", got=m, **info)
        return 1
    if not ck.expect(m is not None and not is_raised(m), "a peak has a model", got=m, **info):
        return 1
    pars = ck.real(m.make_params)
    y = ck.real(m.eval, x=xr, params=pars)
    if not ck.expect(not is_raised(pars) and not is_raised(y), "the model can be evaluated", got=[pars, y], **info):
        return 1
    want = np.zeros(len(x))
    g = value(p)
    used = set()
    for k, t, row in rows:
        std = {"pos": 0.0, "width": 0.0, "ratio": 1.0, "area": area}

        def src(w):
            if row is None:
                # a line the case does not speak of: tied to the first, otherwise standard
                if w == "area":
                    return mine[groups[1][0], "area"]["value"] if (groups[1][0], "area") in mine else area
                if e["kind"] == "K" and k == 2 and w in ("pos", "width") and (groups[1][0], w) in mine:
                    return mine[groups[1][0], w]["value"]
                return std[w]
            l, what = row["src"][w]
            if l == 0:
                return std[w]
            return mine[(t if l == k else groups[l][0]), what]["value"]

        if e["kind"] == "user":
            center, ratio = 5.0, 1.0
        elif e["kind"] == "pileup":
            center, ratio = sum(xm_energy(v) for v in name.split("-")), 1.0
        else:
            center, ratio = energy_of(el, t), cross(el, t, energy) / cross(el, groups[1][0], energy)
        vals = {w: src(w) for w in std}
        want += peak(x, g, eps, vals["area"], center, vals["pos"], vals["width"], ratio, vals["ratio"])
        q = prefix(t)
        used.add(q)
        for w, v in list(vals.items()) + [("center", center), ("ratio0", ratio)]:
            nm = q + {"center": "center", "ratio0": "ratio"}.get(w, SUFFIX.get(w, ""))
            if not ck.expect(nm in pars and abs(pars[nm].value - v) <= 1e-9 * (1 + abs(v)), "a parameter of the model has the value of its source",
                             name=nm, got=pars[nm].value if nm in pars else None, want=v, **info):
                return 1
        for w in ("center", "ratio", "epsilon"):
            b = pars[q + w] if q + w in pars else None
            ck.expect(b is None or not b.vary or b.expr not in (None, ""), "what is known of a line does not move in a fit", name=q + w, got=str(b), **info)
        if row is not None:
            for w in std:
                nm = q + SUFFIX[w]
                moves = bool(pars[nm].vary) and pars[nm].expr in (None, "")
                ck.expect(moves == row["free"][w], "what moves in a fit: areas, and what the user lets move", name=nm, got=moves, want=row["free"][w], **info)
                if (t, w) in mine and not row["tied"][w]:
                    b = mine[t, w]
                    if e["bound"] in ("lo", "lohi"):
                        ck.expect(pars[nm].min == b["min"], "the lower bound is the user's", name=nm, got=pars[nm].min, want=b["min"], **info)
                    if e["bound"] in ("hi", "lohi"):
                        ck.expect(pars[nm].max == b["max"], "the upper bound is the user's", name=nm, got=pars[nm].max, want=b["max"], **info)
    comps = {c.prefix for c in m.components} if hasattr(m, "components") else {m.prefix}
    ck.expect(comps == used, "one peak per excited line, and no others", got=sorted(comps), want=sorted(used), **info)
    ck.expect(close(y, want, 1e-7, 1e-9 * (1 + want.max())), "the spectrum is the sum of the peaks of the excited lines", got=y, want=want, **info)
    ck.expect(p == keep, "the parameters given are left alone", **info)
    ck.traced()
    return 1


def xm_energy(s):
    el, t = s.split("_")
    t = t.lower()
    return energy_of(el, t + {1: "a1", 2: "1"}.get(len(t), ""))


def total(x, g, eps, peaks, energy, areas):
    y = compton(x, g, eps) + elastic(x, g, eps)
    for nm in peaks:
        y = y + one(x, g, eps, nm, energy, areas[nm])
    return y


def one(x, g, eps, nm, energy, area):
    if nm.lower().startswith("user"):
        return peak(x, g, eps, area, 5.0, 0, 0, 1, 1)
    if "-" in nm:
        return peak(x, g, eps, area, sum(xm_energy(v) for v in nm.split("-")), 0, 0, 1, 1)
    el = nm.split("_")[0]
    act = excited(nm, energy)
    return sum([peak(x, g, eps, area, energy_of(el, t), 0, 0, cross(el, t, energy) / cross(el, act[0], energy), 1) for t in act], np.zeros(len(x)))


def area_name(nm):
    if nm.lower().startswith("user"):
        return nm + "_area"
    if "-" in nm:
        return "pileup_" + nm.replace("-", "_") + "_area"
    return nm.split("_")[0] + "_" + FIRST[nm.split("_")[1]] + "_area"


def some_peaks(rng, energy, n, dark=True):
    alls = sum(pool(), [])
    out = []
    while len(out) < n:
        nm = str(rng.choice(alls))
        if nm in out or (not excited(nm, energy) and (not dark or rng.randint(4))):
            continue
        out.append(nm)
    if rng.randint(2):
        out.append("user_peak1")
    if rng.randint(2):
        out.append("Si_Ka1-Ar_Ka1")
    return [out[i] for i in rng.permutation(len(out))]


def assembled(ck, xm, pd, rng):
    p = base(pd, rng)
    energy = p["coherent_sct_energy"]["value"]
    eps = p["non_fitting_values"]["epsilon"]
    peaks = some_peaks(rng, energy, int(rng.randint(0, 4)))
    lit = [nm for nm in peaks if "-" in nm or nm.lower().startswith("user") or excited(nm, energy)]
    areas = {}
    for nm in peaks:
        if rng.randint(2):
            areas[nm] = float(rng.uniform(1e3, 1e5))
            p[area_name(nm)] = dict(value=areas[nm], bound_type="none", min=0.0, max=1e9)
        else:
            areas[nm] = 1e5
    x = np.arange(0, 900, 3)
    info = dict(peaks=peaks, energy=energy, areas=areas)
    ms = ck.real(xm.ModelSpectrum, p, peaks)
    got = ck.real(ms.assemble_models)
    if not ck.expect(not is_raised(ms) and not is_raised(got), "the models of the peaks can be put together", got=[ms, got], **info):
        return
    pars = ck.real(ms.mod.make_params)
    y = ck.real(ms.mod.eval, x=x.astype([int, np.int16, np.uint16][rng.randint(3)]), params=pars)
    want = total(x, value(p), eps, lit, energy, areas)
    if not ck.expect(not is_raised(y) and close(y, want, 1e-7, 1e-8 * want.max()), "the spectrum: Compton, elastic and the peaks", got=y, want=want, **info):
        return
    # one calibration for all of them
    new = dict(value(p))
    for k in GLOBAL:
        new[k] *= float(rng.uniform(0.9, 1.1))
        pars[k].value = new[k]
    new["coherent_sct_energy"] = energy * 1.01
    pars["coherent_sct_energy"].value = new["coherent_sct_energy"]
    pars["elastic_coherent_sct_amplitude"].value = new["coherent_sct_amplitude"] = 5e4
    na = {}
    for nm in lit:
        na[nm] = float(rng.uniform(1e3, 1e5))
        pars[area_name(nm)].value = na[nm]
    clip = any(abs(pars[k].value - new[k]) > 1e-12 for k in GLOBAL + ["coherent_sct_energy"])
    y = ck.real(ms.mod.eval, x=x, params=pars)
    if not clip:
        # branching ratios stay those of the energy the model was made for
        want = compton(x, new, eps) + elastic(x, new, eps)
        for nm in lit:
            want = want + one(x, new, eps, nm, energy, na[nm])
        ck.expect(not is_raised(y) and close(y, want, 1e-7, 1e-8 * want.max()), "all peaks follow the calibration, width and areas of the fit",
                  got=y, want=want, **info)
    ck.traced()


def fit(ck, xm, pd, rng):
    """A fit finds the areas again, and leaves fixed what is fixed."""
    p = pd.get_para()
    p["coherent_sct_energy"]["value"] = 12.0
    peaks = [["Ca_K", "Fe_K", "Pt_M"], ["Ti_K", "Cu_K", "user_peak1"], ["Ce_L", "Zn_K", "Si_Ka1-Si_Ka1"]][rng.randint(3)]
    pc = xm.ParamController(p, peaks)
    pc.update_element_prop(peaks, area="lo")
    pc.set_strategy("linear")
    before = copy.deepcopy(pc.params)
    areas = {nm: float(rng.uniform(1e4, 1e5)) for nm in peaks}
    eps = p["non_fitting_values"]["epsilon"]
    g = dict(value(p), compton_amplitude=3e4, coherent_sct_amplitude=2e4)
    x = np.arange(80, 1350)
    y = total(x, g, eps, peaks, 12.0, areas)
    ms = xm.ModelSpectrum(pc.params, peaks)
    ms.assemble_models()
    res = ck.real(ms.model_fit, x, y, weights=1 / np.sqrt(y + 1))
    info = dict(peaks=peaks, areas=areas)
    if not ck.expect(not is_raised(res), "model_fit: a fit", got=res, **info):
        return
    free = {area_name(nm) for nm in peaks} | {"compton_amplitude", "elastic_coherent_sct_amplitude"}
    ck.expect(set(res.var_names) == free, "model_fit: only areas and scattered intensities move", got=sorted(res.var_names), want=sorted(free), **info)
    got = {nm: res.values.get(area_name(nm)) for nm in peaks}
    ck.expect(all(got[nm] is not None and abs(got[nm] / areas[nm] - 1) < 1e-4 for nm in peaks), "model_fit: the areas of the spectrum", got=got, **info)
    ck.expect(abs(res.values["compton_amplitude"] / 3e4 - 1) < 1e-4 and abs(res.values["elastic_coherent_sct_amplitude"] / 2e4 - 1) < 1e-4,
              "model_fit: the scattered intensity of the spectrum", got=[res.values["compton_amplitude"], res.values["elastic_coherent_sct_amplitude"]], **info)
    ck.expect(all(res.values[k] == before[k]["value"] for k in GLOBAL), "model_fit: what is fixed does not move", got={k: res.values[k] for k in GLOBAL}, **info)
    xm.update_parameter_dict(pc.params, res)
    ck.expect(all(pc.params[area_name(nm)]["value"] == res.values[area_name(nm)] for nm in peaks), "results go back to the parameters", **info)
    shifted(ck, xm, pd, rng)
    for nm in peaks:
        if nm.count("_") == 1 and "user" not in nm:
            el, act = nm.split("_")[0], excited(nm, 12.0)
            want = got[nm] * sum(cross(el, t, 12.0) for t in act) / cross(el, act[0], 12.0)
            s = ck.real(xm.sum_area, nm, res)
            ck.expect(not is_raised(s) and abs(s / want - 1) < 1e-6, "sum_area: the area of all lines of a series", line=nm, got=s, want=want, **info)
    # the areas of a series whose lines the user weighs differently
    for nm in ("Fe_K", "Ce_L", "Pt_M"):
        el, act = nm.split("_")[0], excited(nm, 12.0)
        act = [t for t in act if rng.randint(4)] + act[:1]
        vals, want = {}, 0.0
        for t in sorted(set(act)):
            a, r, u = float(rng.uniform(1, 1e5)), float(rng.uniform(0, 1)), float(rng.uniform(0.1, 5))
            vals.update({"%s_%s_area" % (el, t): a, "%s_%s_ratio" % (el, t): r, "%s_%s_ratio_adjust" % (el, t): u})
            want += a * r * u
        vals["Cu_ka1_area"] = 77.0
        vals.update(compton_amplitude=0.0, elastic_coherent_sct_amplitude=float(rng.uniform(1, 9)), e_offset=0.0)
        q = xm.ParamController(p, [nm]).params
        want_v = {k: vals.get("elastic_" + k if k.startswith("coherent") else k, v["value"]) for k, v in q.items() if k != "non_fitting_values"}
        got = ck.real(xm.update_parameter_dict, q, Results(vals))
        now = {k: v["value"] for k, v in q.items() if k != "non_fitting_values"}
        ck.expect(not is_raised(got) and now == want_v, "results go back to the parameters, whatever they are", line=nm, values=vals,
                  wrong=[k for k in now if now[k] != want_v[k]], got=got)
        s = ck.real(xm.sum_area, nm, Results(vals))
        ck.expect(not is_raised(s) and abs(s / want - 1) < 1e-9, "sum_area: the area of all lines of a series", line=nm, got=s, want=want, values=vals)
    ck.traced()


def shifted(ck, xm, pd, rng):
    """A fit of lines that may move: Ka2 goes with Ka1, and all of it goes back to the parameters."""
    p = pd.get_para()
    p["coherent_sct_energy"]["value"] = 12.0
    nm = str(rng.choice(["Fe_K", "Co_K", "Cu_K", "Cr_K"]))
    el = nm.split("_")[0]
    pc = xm.ParamController(p, [nm])
    pc.update_element_prop([nm], area="lo")
    pc.set_strategy("linear")
    pc.params[el + "_ka1_delta_center"]["bound_type"] = "lohi"
    area, by = float(rng.uniform(1e4, 1e5)), float(rng.choice([-1, 1]) * rng.uniform(0.001, 0.004))
    g, eps = value(p), p["non_fitting_values"]["epsilon"]
    x = np.arange(80, 1350)
    sh = {el + "_ka1": by, el + "_ka2": by}
    y = compton(x, g, eps) + elastic(x, g, eps)
    for t in excited(nm, 12.0):
        y = y + peak(x, g, eps, area, energy_of(el, t), sh.get(el + "_" + t, 0.0), 0.0, cross(el, t, 12.0) / cross(el, "ka1", 12.0), 1.0)
    ms = xm.ModelSpectrum(pc.params, [nm])
    ms.assemble_models()
    res = ck.real(ms.model_fit, x, y)
    info = dict(peak=nm, area=area, shift=by)
    if not ck.expect(not is_raised(res), "model_fit: a fit", got=res, **info):
        return
    names = [el + "_" + t + "_delta_center" for t in excited(nm, 12.0)]
    got = {k: res.values.get(k) for k in names}
    ck.expect(got[names[0]] is not None and abs(got[names[0]] - by) < 1e-5 and got[el + "_ka2_delta_center"] == got[names[0]],
              "a fit finds the shift, and Ka2 goes with Ka1", got=got, **info)
    ck.expect(abs(res.values[el + "_ka1_area"] / area - 1) < 1e-3, "model_fit: the areas of the spectrum", got=res.values[el + "_ka1_area"], **info)
    xm.update_parameter_dict(pc.params, res)
    bad = {}
    for k, v in pc.params.items():
        k2 = "elastic_" + k if k in ("coherent_sct_amplitude", "coherent_sct_energy") else k
        if k != "non_fitting_values" and k2 in res.values and v["value"] != res.values[k2]:
            bad[k] = [v["value"], res.values[k2]]
    ck.expect(not bad and names[1] in pc.params, "results go back to the parameters, all of them", wrong=bad, **info)
    ck.traced()


def scattering(ck, xm, rng):
    from skbeam.core.fitting import models
    from skbeam.core.fitting.lineshapes import compton as rc
    from skbeam.core.fitting.lineshapes import elastic as re

    for _ in range(ck.size(60, 400)):
        p = dict(coherent_sct_energy=float(rng.uniform(5, 40)), e_offset=float(rng.uniform(-0.1, 0.1)), e_linear=float(rng.uniform(0.01, 0.03)),
                 e_quadratic=float(rng.choice([0, 1e-6])), fwhm_offset=float(rng.uniform(0.05, 0.3)), fwhm_fanoprime=float(rng.choice([0, 1e-5, 1e-3])))
        eps = float(rng.choice([2.96, 3.61, 3.0]))
        xr = np.arange(0, 2000, 7).astype([int, float, np.int16, np.uint16][rng.randint(4)])
        x = xr.astype(float)
        extra = {} if eps == 2.96 else dict(epsilon=eps)
        amp = float(rng.uniform(0.5, 1e5))
        info = dict(params=p, epsilon=eps, amplitude=amp)
        want = elastic(x, dict(p, coherent_sct_amplitude=amp), eps)
        got = ck.real(re, xr, coherent_sct_amplitude=amp, **dict(p, **extra))
        ck.expect(not is_raised(got) and close(got, want, 1e-8, 1e-10 * amp), "elastic: a Gaussian at the energy of the beam", got=got, **info)
        m = ck.real(models.ElasticModel)
        got = ck.real(m.eval, x=x, coherent_sct_amplitude=amp, epsilon=eps, **p)
        ck.expect(not is_raised(got) and close(got, want, 1e-8, 1e-10 * amp), "ElasticModel: the same", got=got, **info)
        q = dict(p, compton_amplitude=amp, compton_angle=float(rng.uniform(10, 170)), compton_fwhm_corr=float(rng.uniform(0.8, 2)),
                 compton_f_step=float(rng.choice([0, 5e-5, 0.0004, 0.1, 1])), compton_f_tail=float(rng.choice([0, 0.2, 2])), compton_gamma=float(rng.uniform(0.5, 5)),
                 compton_hi_f_tail=float(rng.choice([0, 0.2, 1])), compton_hi_gamma=float(rng.uniform(0.5, 3)))
        want = compton(x, q, eps)
        got = ck.real(rc, xr, **dict(q, **extra))
        ck.expect(not is_raised(got) and close(got, want, 1e-8, 1e-10 * amp), "compton: peak, step and tails at the Compton energy", got=got, want=want, case=q)
        m = ck.real(models.ComptonModel)
        got = ck.real(m.eval, x=x, epsilon=eps, **q)
        ck.expect(not is_raised(got) and close(got, want, 1e-8, 1e-10 * amp), "ComptonModel: the same", got=got, case=q)
        ck.traced()
    got = ck.real(rc, np.arange(5), 1, 10, 0.1, 0.01, 0, 1, 0, 90, 1, 0.1, 0.1, 1, 0.1, 1)
    want = ck.real(rc, np.arange(5.0), 1.0, 10.0, 0.1, 0.01, 0.0, 1.0, 0.0, 90.0, 1.0, 0.1, 0.1, 1.0, 0.1, 1.0)
    ck.expect(not is_raised(got) and close(got, want), "compton: integers are numbers, too", got=got, want=want)


def helpers(ck, xm, pd, rng):
    from skbeam.core.fitting import models
    from skbeam.core.fitting.lineshapes import compton as rc
    from skbeam.core.fitting.lineshapes import elastic as re

    alls = sum(pool(), [])
    for _ in range(ck.size(80, 500)):
        nm = str(rng.choice(alls))
        el, series = nm.split("_")
        lines = [t for t in LINES[series] if energy_of(el, t)]
        t = str(rng.choice(lines)) if lines else FIRST[series]
        full = t
        text = t
        if t.endswith("1") and t[1] in "ab" and rng.randint(2):
            text = t[:-1]
        if text == series.lower() + "a" and rng.randint(2):
            text = series.lower()
        if text == "lg1" and rng.randint(2):
            text = "lg"
        text = "".join(c.upper() if rng.randint(2) else c for c in text)
        got = ck.real(xm.get_line_energy, el + "_" + text)
        ck.expect(not is_raised(got) and abs(got - energy_of(el, full)) < 1e-9, "get_line_energy: the energy of the line", line=el + "_" + text, got=got,
                  want=energy_of(el, full))
    for fn, cls in ((re, models.ElasticModel), (rc, models.ComptonModel)):
        m = cls()
        got = ck.real(models.set_default, m, fn)
        d = pd.get_para()
        if ck.expect(not is_raised(got), "set_default: sets the bounds of the model", got=got):
            pars = m.make_params()
            for k in set(pars) & set(d):
                v = d[k]
                ok = pars[k].vary == (v["bound_type"] != "fixed")
                if v["bound_type"] != "none":
                    ok = ok and pars[k].value == v["value"]
                if v["bound_type"] in ("lo", "lohi"):
                    ok = ok and pars[k].min == v["min"]
                if v["bound_type"] in ("hi", "lohi"):
                    ok = ok and pars[k].max == v["max"]
                ck.expect(ok, "set_default: bounds as in the default parameters", name=k, got=str(pars[k]), want=v)
