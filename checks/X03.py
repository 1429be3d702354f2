"""X03: the parameters of a fluorescence fit, and what the user does to them."""
import copy

import numpy as np

from common import is_raised, nonvacuous

FIRST = {"K": "ka1", "L": "la1", "M": "ma1"}
LINES = {"K": ["ka1", "ka2", "ka3", "kb1", "kb2", "kb3", "kb4", "kb5"],
         "L": ["la1", "la2", "lb1", "lb2", "lb3", "lb4", "lb5", "lg1", "lg2", "lg3", "lg4", "ll", "ln"],
         "M": ["ma1", "ma2", "mb", "mg"]}
XL = {"ka1": "KL3", "ka2": "KL2", "ka3": "KL1", "kb1": "KM3", "kb2": "KB2", "kb3": "KM2", "kb4": "KB4", "kb5": "KB5",
      "la1": "L3M5", "la2": "L3M4", "lb1": "L2M4", "lb2": "L3N5", "lb3": "L1M3", "lb4": "L1M2", "lb5": "LB5",
      "lg1": "L2N4", "lg2": "L1N2", "lg3": "L1N3", "lg4": "LG4", "ll": "L3M1", "ln": "L2M1",
      "ma1": "M5N7", "ma2": "M5N6", "mb": "M4N6", "mg": "M3N5"}
SUFFIX = {"pos": "delta_center", "width": "delta_sigma", "ratio": "ratio_adjust", "area": "area"}
VALUES = {"pos": 0.0, "width": 0.0, "ratio": 1.0, "area": 1000.0}


def cross(element, line, energy):
    """Cross section of a line, from xraylib."""
    import xraylib as xl

    try:
        return xl.CS_FluorLine_Kissel(xl.SymbolToAtomicNumber(element), getattr(xl, XL[line] + "_LINE"), energy)
    except ValueError:
        return 0


def energy_of(element, line):
    import xraylib as xl

    try:
        return xl.LineEnergy(xl.SymbolToAtomicNumber(element), getattr(xl, XL[line] + "_LINE"))
    except ValueError:
        return 0


def excited(name, energy):
    """The lines of a series that the beam excites; none if not the first."""
    el, series = name.split("_")
    act = [t for t in LINES[series] if cross(el, t, energy) != 0]
    return act if FIRST[series] in act else []


def pool():
    from skbeam.core.fitting import xrf_model as xm

    return list(xm.K_LINE), list(xm.L_LINE), list(xm.M_LINE)


def run(ck):
    from skbeam.core.fitting import xrf_model as xm
    from skbeam.core.fitting.base import parameter_data as pd

    rng = ck.np_rng
    seen = {}
    for rnd in range(ck.size(5, 24)):
        history_set(ck, xm, pd, rng, rnd, seen)
    nonvacuous(all(seen.get(k, 0) > 5 for k in ("add", "update", "set", "touch", "fit", "register", "refuse", "pileup", "user", "dark")),
               "kinds of steps: %s" % seen)
    lines(ck, xm, rng)
    defaults(ck, xm, pd, rng)


def names(el, info, key):
    """Parameter names an abstract key stands for."""
    e, l, what = key
    nm, kind, act = info[e - 1]
    if kind == "user":
        return [nm + "_" + SUFFIX[what]]
    if kind == "pileup":
        return ["pileup_" + nm.replace("-", "_") + "_" + SUFFIX[what]]
    sym, series = nm.split("_")
    if what == "area":
        return [sym + "_" + FIRST[series] + "_area"]
    return [sym + "_" + t + "_" + SUFFIX[what] for t in (act[:1] if l == 1 else act[1:])]


def history_set(ck, xm, pd, rng, rnd, seen):
    base = pd.get_para()
    energy = float(rng.choice([8.0, 10.0, 12.0, 20.0, 35.0]))
    base["coherent_sct_energy"]["value"] = energy
    bnames = sorted(k for k in base if k != "non_fitting_values")
    ks, ls, ms = pool()
    info = []
    syms = set()
    dark = rnd % 2 if rnd else 1
    while len(info) < 2:
        nm = str(rng.choice([ks, ls, ms][rng.randint(3)]))
        act = excited(nm, energy)
        if nm.split("_")[0] in syms or bool(act) == bool(dark and not info):
            continue
        syms.add(nm.split("_")[0])
        if not act:
            seen["dark"] = seen.get("dark", 0) + 6
        info.append((nm, "real", act))
    which = ["pileup", "user", "real"][rnd % 3]
    if which == "user":
        info.append(("user_peak%d" % rng.randint(1, 9) if rng.randint(2) else "User%d" % rng.randint(100, 999), "user", []))
    elif which == "pileup":
        info.append(("-".join(str(v) for v in rng.choice(["Si_Ka1", "Fe_Ka1", "Ce_La1", "Ar_Kb1", "S_K", "Pt_M"], 2)), "pileup", []))
    else:
        # two series of one element
        both = [(a, b) for a in ks + ls for b in ls + ms if a < b and a.split("_")[0] == b.split("_")[0]
                and excited(a, energy) and excited(b, energy)]
        if both:
            info = [(n, "real", excited(n, energy)) for n in both[rng.randint(len(both))]] + info[:1]
        else:
            info.append(("user_peak1", "user", []))
    seen[which] = seen.get(which, 0) + 6
    info = [info[i] for i in rng.permutation(3)]
    elems = [dict(kind=k, lines=min(len(a), 2)) for _, k, a in info]
    some = [[e + 1, 1, w] for e in range(3) for w in ("pos", "area", "ratio") if info[e][1] != "real" or info[e][2] or w == "area"]
    allkinds = ["fixed", "none", "lo", "hi", "lohi"]

    def strategy(name, new, full):
        m = [[[0, i + 1, "base"], str(rng.choice(allkinds))] for i in range(len(bnames)) if full or rng.randint(2)]
        if new:
            m += [[k, str(rng.choice(allkinds))] for k in some if rng.randint(3) == 0]
        return dict(name=name, new=new, map=m)

    built = [str(v) for v in rng.choice(["linear", "adjust_element", "e_calibration", "fit_with_tail", "free_more"], 2, replace=False)]
    strats = [dict(name=b, new=False, map=[[[0, i + 1, "base"], getattr(pd, b)[n]] for i, n in enumerate(bnames) if n in getattr(pd, b)])
              for b in built]
    strats += [strategy("mine", True, True), strategy("mine", True, False), strategy("other", True, False)]
    start = [int(v) for v in rng.permutation(3)[:rng.randint(0, 3)] + 1]
    wishes = [""] + [str(v) for v in rng.choice(allkinds, 2, replace=False)]
    kinds = [str(v) for v in rng.choice(["pos", "width", "area", "ratio"], 2, replace=False)]
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OneEach Same Own Fixed %s\nPROPERTIES Step\nCONSTANTS Elems <- ElemsDef\n  Start <- StartDef\n"
           "  NB = %d\n  BaseBound <- BaseDef\n  Strats <- StratsDef\n  Kinds <- KindsDef\n  Wishes <- WishesDef\n  NH = %d\n  Plans <- PlansDef\n")
    data = dict(elems=elems, start=start, base=[base[b]["bound_type"] for b in bnames], strats=strats, kinds=kinds, wishes=wishes)
    defs = ("ElemsDef == Data.elems\nStartDef == Data.start\nBaseDef == Data.base\nStratsDef == Data.strats\n"
            "PlansDef == Data.plans\nKindsDef == ToSet(Data.kinds)\nWishesDef == ToSet(Data.wishes)")
    data["plans"] = [] if rnd % 2 == 0 else [plan(rng, allkinds, len(bnames), len(strats), ck.size(9, 14)) for _ in range(ck.size(40, 120))]
    r = ck.tlc("XrfParams", cfg % ("Report", len(bnames), 2), data=data, defs=defs, workers=4)
    outs = r.out
    deep = [h for h in outs if data["plans"] and len(h["hist"]) == len(data["plans"][0])]
    pick = deep + [outs[i] for i in rng.permutation(len(outs))[:ck.size(160, 500)]]
    for n, h in enumerate(pick):
        replay(ck, xm, rng, "%d_%d" % (rnd, n), h, base, bnames, info, strats, seen, start)
        ck.traced()


def plan(rng, allkinds, nb, ns, n):
    four = ["pos", "width", "area", "ratio"]
    out = []
    for _ in range(n):
        what = rng.randint(10)
        e = int(rng.randint(1, 4))
        if what < 3:
            out.append(["add", str(rng.choice(four)), e, str(rng.choice([""] + allkinds))])
        elif what < 4:
            k1, k2 = [str(v) for v in rng.choice(four, 2, replace=False)]
            out.append(["update", e, int(rng.randint(e, 4)), k1, k2, str(rng.choice(allkinds)), str(rng.choice(allkinds))])
        elif what < 6:
            out.append(["set", int(rng.randint(1, ns + 1))])
        elif what < 8:
            out.append(["touch", [e, int(rng.randint(1, 3)), str(rng.choice(four))] if rng.randint(3) else [0, int(rng.randint(1, nb + 1)), "base"]])
        elif what < 9:
            out.append(["register", int(rng.choice([3, 3, 4, 4, 5])), bool(rng.randint(3) == 0)])
        else:
            out.append(["fit", str(rng.choice(["all", "base", "peaks"]))])
    if rng.randint(2):
        a, b = [int(v) for v in rng.permutation([3, 4])]
        i = int(rng.randint(0, n - 2))
        out[i:i + 3] = [["register", a, True], ["register", b, bool(rng.randint(4) == 0)], ["set", int(rng.choice([a, b]))]]
    return out


class Results(object):
    """What of a fit result one may look at."""

    def __init__(self, values):
        from lmfit import Parameters

        self.params = Parameters()
        for k in values:
            self.params.add(k, value=values[k])
        self.values = dict(values)
        self.best_values = dict(values)


def replay(ck, xm, rng, tag, h, base, bnames, info, strats, seen, start):
    inp = copy.deepcopy(base)
    given = [info[e - 1][0] for e in start]
    kw = dict(elements=[i[0] for i in info], start=given, energy=base["coherent_sct_energy"]["value"], history=h["hist"])
    pc = ck.real(xm.ParamController, inp, given)
    if not ck.expect(not is_raised(pc), "a controller is made", got=pc, **kw):
        return
    other = xm.ParamController(inp, given)
    if rng.randint(2):
        # the caller goes on using what he gave
        given.append("Xx_K")
        for k in bnames:
            inp[k]["value"] = -77
            inp[k]["bound_type"] = "caller"
        inp["non_fitting_values"]["element_list"].append("Xx")
        inp["non_fitting_values"]["energy_bound_low"]["value"] = -77
    else:
        given, keep = None, copy.deepcopy(inp)

    def key_names(key):
        return [bnames[key[1] - 1]] if key[0] == 0 else names(None, info, key)

    def value(nm, n):
        """The n-th new value; the energy of the beam stays what it is."""
        return base[nm]["value"] + n * 1e-9 if nm == "coherent_sct_energy" else 0.0 if n % 5 == 2 else 1000.5 + n

    regs = {}
    for op in h["hist"]:
        what = op[0]
        seen[what] = seen.get(what, 0) + 1
        if what == "add":
            nm = info[op[2] - 1][0]
            if op[3] == "":
                got = ck.real(pc.add_param, op[1], nm)
            else:
                got = ck.real(pc.add_param, op[1], nm, op[3]) if rng.randint(2) else ck.real(pc.add_param, op[1], nm, constraint=op[3])
        elif what == "update":
            got = ck.real(pc.update_element_prop, [info[e - 1][0] for e in op[1]], **dict(zip(op[2], op[3])))
        elif what == "set":
            s = strats[op[1] - 1]
            got = ck.real(pc.set_strategy, s["name"] + tag if s["new"] else s["name"])
        elif what == "register":
            i = op[1]
            if i not in regs:
                regs[i] = {nm: b for k, b in strats[i - 1]["map"] for nm in key_names(k)}
            got = ck.real(xm.register_strategy, strats[i - 1]["name"] + tag, regs[i], *([] if op[2] and rng.randint(2) else [op[2]]))
            if not op[3]:
                seen["refuse"] = seen.get("refuse", 0) + 1
                if not ck.expect(is_raised(got, "RuntimeError"), "another strategy of that name is not replaced unless asked for", got=got, **kw):
                    return
                continue
        elif what == "touch":
            for nm in key_names(op[1]):
                if nm not in pc.params:
                    ck.fail("the parameter is there", name=nm, **kw)
                    return
                pc.params[nm]["value"] = value(nm, op[2])
            got = None
        elif what == "none":
            continue
        elif what == "fit":
            vals = {}
            for k, _ in h["bound"]:
                if op[1] == "all" or (k[0] == 0) == (op[1] == "base"):
                    for nm in key_names(k):
                        vals["elastic_" + nm if nm in ("coherent_sct_amplitude", "coherent_sct_energy") else nm] = value(nm, op[2])
            vals["unheard_of"] = 3.0
            got = ck.real(xm.update_parameter_dict, pc.params, Results(vals))
        if not ck.expect(not is_raised(got), "the step is possible", step=op, got=got, **kw):
            return
    want_b = {nm: b for k, b in h["bound"] for nm in key_names(k)}
    want_v = {}
    for k, v in h["val"]:
        for nm in key_names(k):
            want_v[nm] = value(nm, v) if v else (base[nm]["value"] if k[0] == 0 else VALUES[k[2]])
    got_b = {k: v.get("bound_type") for k, v in pc.params.items() if k != "non_fitting_values"}
    got_v = {k: v.get("value") for k, v in pc.params.items() if k != "non_fitting_values"}
    if not ck.expect(set(got_b) == set(want_b), "the parameters of the peaks listed, and no others",
                     missing=sorted(set(want_b) - set(got_b)), extra=sorted(set(got_b) - set(want_b)), **kw):
        return
    ck.expect(got_b == want_b, "bounds: by the strategy, else as asked for, else fixed",
              wrong={k: [got_b[k], want_b[k]] for k in want_b if got_b[k] != want_b[k]}, **kw)
    ck.expect(got_v == want_v, "values: the default until changed, for each parameter by itself",
              wrong={k: [got_v[k], want_v[k]] for k in want_v if got_v[k] != want_v[k]}, **kw)
    ck.expect(list(pc.element_list) == [info[e - 1][0] for e in h["list"]], "peaks as listed", got=list(pc.element_list), **kw)
    ck.expect(pc.params["non_fitting_values"] == base["non_fitting_values"], "values that are not fitted stay as given", got=pc.params["non_fitting_values"], **kw)
    wl = sorted(info[e - 1][0].split("_")[0] + "_" + t for e in h["list"] for t in info[e - 1][2])
    ck.expect(sorted(pc.element_linenames) == wl, "the lines of the peaks listed", got=sorted(pc.element_linenames), want=wl, **kw)
    if given is None:
        ck.expect(inp == keep, "the parameters given are left alone", **kw)
    fresh = xm.ParamController(base, [info[e - 1][0] for e in start])
    ck.expect(other.params == fresh.params and other.element_list == fresh.element_list, "controllers do not share anything", **kw)
    for i, d in regs.items():
        ck.expect(d == {nm: b for k, b in strats[i - 1]["map"] for nm in key_names(k)}, "a strategy is left alone", **kw)
    # bounds of a parameter stay in the parameter; a dictionary of them can be had
    for what in ("bound_type", "value"):
        ex = ck.real(xm.extract_strategy, pc.params, what)
        ck.expect(ex == {k: v[what] for k, v in pc.params.items() if k != "non_fitting_values"}, "extract_strategy returns one entry of each", got=ex, **kw)
    for nm in list(xm._STRATEGY_REGISTRY) if hasattr(xm, "_STRATEGY_REGISTRY") else []:
        if nm.endswith(tag) and ("mine" in nm or "other" in nm):
            del xm._STRATEGY_REGISTRY[nm]


def lines(ck, xm, rng):
    """get_activated_lines against the table of cross sections."""
    ks, ls, ms = pool()
    alls = ks + ls + ms
    for n in range(ck.size(60, 400)):
        sel = [str(v) for v in rng.choice(alls, int(rng.randint(1, 5)), replace=False)] + (["user_peak1"] if rng.randint(4) == 0 else [])
        energy = float(rng.uniform(1.5, 40))
        want = [s.split("_")[0] + "_" + t for s in sel if s in alls for t in excited(s, energy)]
        got = ck.real(xm.get_activated_lines, energy, sel)
        ck.expect(not is_raised(got) and list(got) == want, "the lines that the beam excites, series by series", energy=energy, lines=sel, got=got, want=want)
    # every series, down to the weakest lines
    for energy in [float(v) for v in rng.uniform([1.5, 4, 8, 14, 20, 30], [4, 8, 14, 20, 30, 60])]:
        got = ck.real(xm.get_activated_lines, energy, list(alls))
        want = [s.split("_")[0] + "_" + t for s in alls for t in excited(s, energy)]
        ck.expect(not is_raised(got) and list(got) == want, "the lines that the beam excites, weak ones too", energy=energy,
                  differ=sorted(set(got) ^ set(want))[:20] if not is_raised(got) else got)


def defaults(ck, xm, pd, rng):
    """The default parameters are nobody's to change."""
    first = copy.deepcopy(ck.real(pd.get_para))
    for s in ("linear", "free_more", "fit_with_tail"):
        p = pd.get_para()
        got = ck.real(xm.set_parameter_bound, p, s)
        want = {k: getattr(pd, s).get(k, "fixed") for k in p if k != "non_fitting_values"}
        ck.expect(not is_raised(got) and {k: v["bound_type"] for k, v in p.items() if k != "non_fitting_values"} == want,
                  "bounds of the strategy, else fixed", strategy=s, got=p)
        ck.expect(p["non_fitting_values"] == first["non_fitting_values"], "values that are not fitted have no bounds", strategy=s)
        extra = {"Fe_ka1_area": "lo"}
        q = dict(pd.get_para(), Fe_ka1_area=dict(value=1, bound_type="none"), Fe_ka2_area=dict(value=1, bound_type="none"))
        ck.real(xm.set_parameter_bound, q, s, extra)
        ck.expect(q["Fe_ka1_area"]["bound_type"] == "lo" and q["Fe_ka2_area"]["bound_type"] == "fixed" and extra == {"Fe_ka1_area": "lo"},
                  "extra bounds apply to what the strategy does not name", strategy=s, got=q)
        q = dict(pd.get_para(), Fe_ka2_area=dict(value=1, bound_type="none"))
        got = ck.real(xm.set_parameter_bound, q, s)
        ck.expect(not is_raised(got) and q["Fe_ka2_area"]["bound_type"] == "fixed", "what the strategy does not name is fixed", strategy=s, got=q)
        p["e_linear"]["value"] = 12345
        ck.expect(pd.get_para() == first, "defaults do not depend on what was done with earlier ones", strategy=s)
    xx = ck.real(xm.set_parameter_bound, pd.get_para(), "no such strategy")
    ck.expect(is_raised(xx), "an unknown strategy is refused", got=xx)
