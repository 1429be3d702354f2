"""K01: elements, their lines, and powder standards."""
import os

import numpy as np

from common import REPO, close, is_raised, nonvacuous

LINE = {"Ka1": "KL3", "Ka2": "KL2", "Ka3": "KL1", "Kb1": "KM3", "Kb3": "KM2", "La1": "L3M5", "La2": "L3M4",
        "Lb1": "L2M4", "Lb2": "L3N5", "Lb3": "L1M3", "Lb4": "L1M2", "Lg1": "L2N4", "Lg2": "L1N2", "Lg3": "L1N3",
        "Ll": "L3M1", "Ln": "L2M1", "Ma1": "M5N7", "Ma2": "M5N6", "Mb": "M4N6", "Mg": "M3N5"}
ALIAS = {"Kb2": "KB2", "Kb4": "KB4", "kb5": "KB5", "Lb5": "LB5", "Lg4": "LG4"}
SHELLS = ["K"] + ["L%d" % i for i in (1, 2, 3)] + ["M%d" % i for i in range(1, 6)] + ["N%d" % i for i in range(1, 8)] + \
    ["O%d" % i for i in range(1, 6)] + ["P%d" % i for i in (1, 2, 3)]
FIELDS = ["atomic_radius", "covalent_radius", "mass", "bp", "mp", "density", "atomic_volume", "coherent_scattering_length",
          "incoherent_crosssection", "absorption", "debye_temp", "thermal_conductivity"]


def direct(f, *a):
    try:
        return f(*a)
    except ValueError:
        return 0


def mixed(rng, s):
    return "".join(ch.upper() if rng.randint(2) else ch.lower() for ch in s)


def table():
    """The data file, read independently: Z -> (symbol, name, values)."""
    out, z, sym, name = {}, None, None, None
    for line in open(os.path.join(REPO, "skbeam/core/constants/data/AtomicConstants.dat")):
        t = line.split()
        if t[:1] == ["#S"]:
            z, sym = int(t[1]), t[2]
            if z == 1000:
                break
        elif t[:1] == ["#UNAME"]:
            name = t[1]
        elif t and not t[0].startswith("#"):
            out[z] = (sym, name, [float(v) for v in t])
    return out


def run(ck):
    import xraylib as xl

    from skbeam.core.constants import basic as ba
    from skbeam.core.constants import xrf, xrs

    rng = ck.np_rng
    consts = {k: getattr(xl, v + "_LINE") for k, v in list(LINE.items()) + list(ALIAS.items())}
    names = sorted(consts)
    incs = [3.0, 8.0, 12.0, 30.0, 100.0]
    zs = list(range(1, 101))
    unit = 1e-5
    lines, rows = [], {}
    for z in zs:
        for k, nm in enumerate(names):
            e = direct(xl.LineEnergy, z, consts[nm])
            ok = [i + 1 for i, inc in enumerate(incs) if direct(xl.CS_FluorLine_Kissel, z, consts[nm], inc) != 0]
            if ok:
                lines.append([z, k + 1, int(round(e / unit)), ok])
                rows[z, k + 1] = e
    cases = []
    for _ in range(ck.size(50, 400)):
        ref = lines[rng.randint(len(lines))]
        delta = int(rng.choice([3e-3, 0.02, 0.05, 0.3]) / unit)
        only = [int(v) for v in rng.choice(zs, int(rng.randint(1, 30)), replace=False)] if rng.randint(2) else []
        if only and rng.randint(2):
            only[0] = ref[0]
            only = list(dict.fromkeys(only))
        cases.append(dict(op="search", e=ref[2] + int(rng.randint(-delta, delta + 1)), delta=delta, inc=int(rng.randint(1, len(incs) + 1)), only=only))
    for _ in range(ck.size(120, 1500)):
        n = int(rng.randint(1, 9))
        cases.append(dict(op="standard", d=[int(v) for v in rng.permutation(40)[:n] + 1], hkl=[int(v) for v in rng.permutation(60)[:n]]))
    r = ck.tlc("Elements", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS ReadsLast Sorted Report\nCONSTANTS Cases <- CasesDef\n"
               "  Lines <- LinesDef\n  Energies = %d\n  NH = %d\n" % (3, 6 if ck.thorough else 5),
               data=dict(cases=cases, lines=lines), defs="CasesDef == Data.cases\nLinesDef == Data.lines", workers=4)
    hits = 0
    for e in r.out:
        if "hist" in e:
            history(ck, xl, xrf, rng, consts, names, e["hist"])
            continue
        a = cases[e["case"] - 1]
        if a["op"] == "search":
            want = {}
            for z, k in e["ans"]:
                want.setdefault(xl.AtomicNumberToSymbol(z), {})[names[k - 1].lower()] = rows[z, k]
            only = None if not a["only"] else [mixed(rng, xl.AtomicNumberToSymbol(z)) if rng.randint(2) else z for z in a["only"]]
            # away from the limits by more than rounding
            lim = [abs(abs(x[2] - a["e"]) - a["delta"]) for x in lines]
            if min(lim) < 2:
                continue
            got = ck.real(xrf.emission_line_search, a["e"] * unit, a["delta"] * unit, incs[a["inc"] - 1], *([] if only is None else [only]))
            ok = isinstance(got, dict) and {k: dict(v) for k, v in got.items()} == want
            ck.expect(ok, "exactly the elements and lines within the range, of those excited", line_e=a["e"] * unit, delta=a["delta"] * unit,
                      incident=incs[a["inc"] - 1], elements=only, got=got, want=want)
            hits += len(want)
        else:
            standard(ck, xrs, rng, a, e["ans"])
        ck.traced()
    nonvacuous(hits > 40, "search hits: %d" % hits)
    lookup(ck, xl, ba, xrf, rng, consts)


def history(ck, xl, xrf, rng, consts, names, hist):
    z = int(rng.randint(20, 93))
    kind, f = [("cs", xl.CS_FluorLine_Kissel), ("csb", xl.CSb_FluorLine_Kissel)][rng.randint(2)]
    energies = [None, 5.0, 13.5, 60.0]
    if rng.randint(2):
        # energies close to each other and to an edge of the element count as well
        e0 = float(rng.uniform(3, 40)) if rng.randint(2) else float(xl.EdgeEnergy(z, xl.L3_SHELL))
        energies[1:] = [e0, e0 * (1 + 10.0 ** -rng.randint(1, 6)), e0 * (1 - 10.0 ** -rng.randint(1, 6))]
    el = xrf.XrfElement(z)
    how = rng.randint(2)
    obj = other = None
    for op, k in hist:
        if op == "new":
            obj = ck.real(xrf.XrayLibWrap_Energy, z, kind, energies[k]) if how else getattr(el, kind)(energies[k])
            other = getattr(el, kind)(energies[1])
        elif op == "set":
            obj.incident_energy = energies[k]
        nm = names[rng.randint(len(names))]
        got = [ck.real(lambda: obj[mixed(rng, nm)]), ck.real(lambda: obj.incident_energy), ck.real(lambda: dict(obj.all)[nm.lower()]),
               ck.real(lambda: other[nm])]
        want = [direct(f, z, consts[nm], energies[k]), energies[k], direct(f, z, consts[nm], energies[k]), direct(f, z, consts[nm], energies[1])]
        if not ck.expect(got == want, "cross sections are those of the energy set last", Z=z, kind=kind, line=nm, history=hist, got=got, want=want):
            return
    ck.traced()


def standard(ck, xrs, rng, a, ans):
    # spacings far apart, or next to each other
    off, u = [(0.0, 0.1), (0.0, 0.1), (3.0, 1e-5)][rng.randint(3)]
    d = off + np.array(a["d"]) * u
    sign = [1, 1, -1][rng.randint(3)]

    def index(v):
        return (v // 16, sign * ((v // 4) % 4), v % 4)

    hkl = [index(v) for v in a["hkl"]]
    wl = float(rng.uniform(0.01, 0.19))
    give = [None, hkl, tuple(hkl)][rng.randint(3)]
    how = rng.randint(3)
    q = 2 * np.pi / d
    tt = 2 * np.arcsin(wl / 2 / d)
    if how == 0:
        s = ck.real(xrs.PowderStandard.from_d, "x", d, *([] if give is None else [give]))
    elif how == 1:
        s = ck.real(xrs.PowderStandard.from_lambda_2theta_hkl, "x", wl, tt, *([] if give is None else [give]))
    else:
        s = ck.real(xrs.PowderStandard, "x", [(a_, b_, c_) for a_, b_, c_ in zip(d, hkl, q)])
        give = hkl
    want_d = [off + w[0] * u for w in ans]
    want_h = [(0, 0, 0) if give is None else index(w[1]) for w in ans]
    if not ck.expect(not is_raised(s), "a standard is made", d=d, got=s):
        return
    got = list(s)
    ok = (len(s) == len(got) == len(ans) and s.name == "x" and close([g.d for g in got], want_d) and [tuple(g.hkl) for g in got] == want_h
          and close([g.q for g in got], 2 * np.pi / np.array(want_d)) and list(s.reflections) == got)
    ck.expect(ok, "reflections by increasing q, each with its own spacing and indices", d=d, hkl=hkl, got=got, want=[want_d, want_h])
    w2 = float(rng.uniform(0.01, 0.19))
    ck.expect(close(s.convert_2theta(w2), 2 * np.arcsin(w2 / 2 / np.array(want_d))), "angles at another wavelength", d=d, wavelength=w2, got=s.convert_2theta(w2))
    w2 = float(rng.uniform(0.1, 9))  # some reflections may be out of reach, the others are there
    with np.errstate(all="ignore"):
        want = 2 * np.arcsin(w2 / 2 / np.array(want_d))
    g2 = ck.real(s.convert_2theta, w2)
    ck.expect(not is_raised(g2) and close(g2, want, 1e-6), "angles at a long wavelength", d=d, wavelength=w2, got=g2, want=want)
    for g, w in zip(got, want_h):
        ck.expect(close(g.hkl.length, np.sqrt(w[0] ** 2 + w[1] ** 2 + w[2] ** 2)) and all(type(v) is int for v in g.hkl), "length of the indices", got=g)


def lookup(ck, xl, ba, xrf, rng, consts):
    tab = table()
    nonvacuous(len(tab) >= 92, "table")
    for z, (sym, name, vals) in tab.items():
        for key in (z, sym, name, sym.lower(), sym.upper(), name.lower(), name.upper(), mixed(rng, name), mixed(rng, sym), sym.swapcase()):
            e = ck.real(ba.BasicElement, key)
            ok = not is_raised(e) and e.Z == z and e.sym == sym and e.name == name and close([getattr(e, f) for f in FIELDS], vals) \
                and all(e[f] == getattr(e, f) for f in FIELDS) and e["Z"] == z
            ck.expect(ok, "an element is found by number, symbol and name in any case", key=key, got=e, want=[z, sym, name, vals])
        x, y = ba.BasicElement(z), ba.BasicElement(int(rng.randint(1, 99)))
        ck.expect([x < y, x <= y, x == y, x != y, x > y, x >= y] == [z < y.Z, z <= y.Z, z == y.Z, z != y.Z, z > y.Z, z >= y.Z], "elements compare by number", a=z, b=y.Z)
        if z > 100:
            continue
        e = ck.real(xrf.XrfElement, [z, sym, mixed(rng, name)][rng.randint(3)])
        if not ck.expect(not is_raised(e), "fluorescence data of an element", Z=z, got=e):
            continue
        for what, keys, f in (("emission_line", consts, xl.LineEnergy), ("bind_energy", SHELLS, xl.EdgeEnergy), ("jump_factor", SHELLS, xl.JumpFactor),
                              ("fluor_yield", SHELLS, xl.FluorYield)):
            w = getattr(e, what)
            code = {k: consts[k] if what == "emission_line" else getattr(xl, k + "_SHELL") for k in keys}
            want = {k.lower(): direct(f, z, v) for k, v in code.items()}
            got = ck.real(lambda: dict(w.all))
            ck.expect(got == want and len(w) == len(want) and sorted(w) == sorted(want), "%s of every line or shell" % what, Z=z, got=got, want=want)
            k = list(code)[rng.randint(len(code))]
            ck.expect(ck.real(lambda: w[mixed(rng, k)]) == want[k.lower()], "names of lines in any case", Z=z, key=k)
        got = ck.real(lambda: e.emission_line["no such line"])
        ck.expect(is_raised(got, "KeyError"), "an unknown line is refused", got=got)
        ck.traced()
    every = {z: ba.BasicElement(z) for z in tab}
    for a, x in every.items():
        for b, y in every.items():
            got = [x < y, x <= y, x == y, x != y, x > y, x >= y]
            ck.expect(got == [a < b, a <= b, a == b, a != b, a > b, a >= b], "elements compare by number", a=a, b=b, got=got)
    for bad in ("", "Xx", 0, -1, 500, "unobtainium"):
        got = ck.real(ba.BasicElement, bad)
        ck.expect(is_raised(got, "KeyError"), "what is no element is refused", key=bad, got=got)
