"""W01: what is written to files is read back."""
import os

import numpy as np

from common import close, is_raised, nonvacuous, same_ints


def run(ck):
    rng = ck.np_rng
    d = os.path.join(ck.tmp, "files")
    os.mkdir(d)
    here = os.getcwd()
    os.chdir(d)
    try:
        gsas(ck, rng, d)
        files(ck, rng, d)
        masks(ck, rng, d)
        volumes(ck, rng, d)
    finally:
        os.chdir(here)


# ------------------------------------------------------------------ powder
def gsas(ck, rng, d):
    from skbeam import io

    cases = []
    long = ck.size([999, 1001, 1024, 2000, 1503, 777], [999, 1001, 1024, 2000, 1503, 777, 3000, 5001, 4096])
    for i in range(ck.size(220, 2500) + len(long)):
        n = int(rng.choice([2, 3, 4, 5, 6, 9, 10, 11, 15, 19, 20, 21, 33])) if i >= len(long) else long[i]
        top = int(rng.choice([9, 1000, 99999, 999999, 1000000, 1000001, 9999990, 9999991, 123456789, 2000000000]))
        val = [int(v) for v in rng.randint(0, top + 1, n)]
        val[rng.randint(n)] = top
        if rng.randint(4) == 0:
            val[rng.randint(n)] = 0
        if rng.randint(3) == 0:  # a background too high taken away
            for j in range(n):
                if val[j] < top and rng.randint(3) == 0:
                    val[j] = -int(rng.choice([1, 4, 5, 6, 50, 999, 12345, 99999]))
        if rng.randint(15) == 0:  # nothing positive is left
            val = [-int(rng.choice([1, 4, 5, 6, 50, 999, 12345, 99999])) for _ in range(n)]
        if rng.randint(6) == 0:  # far below zero
            val[rng.randint(n)] = -int(rng.choice([99999, 100000, 999989, 999990, 1000000, 12345678, 2000000000]))
        err = [int(v) for v in rng.randint(0, max(2, max(val) // 3), n)]
        if rng.randint(12) == 0:
            val, err = [0] * n, [int(v) for v in rng.randint(0, 50, n)]
        if rng.randint(8) == 0:  # errors larger than what they belong to
            err[rng.randint(n)] = int(rng.choice([99999999, 100000000, 999999999, 2000000000]))
        cases.append(dict(mode=["STD", "ESD", "FXYE"][i % 3], val=val, err=err))
    r = ck.tlc("Gsas", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Full RoundTrip Fits Report\nCONSTANTS Cases <- CasesDef\n",
               data=cases, defs="CasesDef == Data")
    res = {e["case"]: e for e in r.out}
    nonvacuous(len(res) == len(cases), "files")
    nonvacuous(sum(e["exp"] > 0 for e in res.values()) > 20, "scaled files")
    for k, cs in enumerate(cases):
        e = res[k + 1]
        n = len(cs["val"])
        start, step = float(rng.choice([0, 0.5, 1.25, 10, -3, 100.01])), float(rng.choice([0.01, 0.25, 1, 0.002]))
        tth = start + step * np.arange(n)
        if n < 60 and rng.randint(6) == 0:
            tth = (int(rng.randint(1, 40)) + np.arange(n)).astype([np.uint8, np.int8, np.int16][rng.randint(3)])
        elif cs["mode"] == "FXYE":
            tth = np.sort(tth + rng.uniform(0, step / 3, n))
        val = np.array(cs["val"], [int, float][rng.randint(2)])
        kinds = [t for t in (np.uint8, np.int16, np.uint16, np.int32, np.float32) if same_ints(val.astype(t), val)]
        top = float(max(cs["val"]) or 1)
        if abs(top / 10.0 ** np.round(np.log10(top)) - 1) < 1e-5:
            kinds = [t for t in kinds if t is not np.float32]      # its logarithm may be a whole number or not
        if kinds and rng.randint(3) == 0:
            val = val.astype(kinds[rng.randint(len(kinds))])
        err = np.array(cs["err"], float)
        if cs["mode"] == "FXYE":
            err = err + 0.5
            if e["exp"] == 0 and rng.randint(4) == 0:  # a well known pattern
                err = 1e-7 * (1 + np.array(cs["err"], float) % 97)
        name = "p%d" % k if rng.randint(8) else "p%d" % k + "x" * int(rng.randint(40, 90))
        if rng.randint(6) == 0:
            name += ".v1.2"
        kw = {} if cs["mode"] == "STD" and rng.randint(2) else dict(err=err, mode=cs["mode"])
        if cs["mode"] == "STD" and kw and rng.randint(3) == 0:
            kw = dict(mode="ESD")  # without errors there is only STD
        if rng.randint(2):
            kw["dir_path"] = d
        keep = [tth.copy(), val.copy(), err.copy()]
        got = ck.real(io.gsas_writer, tth, val, name, **kw)
        info = dict(case=cs, tth=tth, kwargs=sorted(kw))
        if is_raised(got):
            ck.fail("gsas_writer: the file is written", got=got, **info)
            continue
        if not ck.expect(os.path.exists(os.path.join(d, name + ".gsas")), "gsas_writer: the file is the one named", name=name, found=sorted(os.listdir(d)), **info):
            continue
        with open(os.path.join(d, name + ".gsas")) as f:
            lines = [v.rstrip("\r") for v in f.read().split("\n")]
        # the file, cell by cell
        ok = len(lines) == e["nrec"] + 3 and lines[-1] == "" and all(len(v) == 80 for i, v in enumerate(lines[:-1]) if i != 1)
        ok = ok and name[:40] in lines[0] and (len(name) > 30 or "%g" % 10.0 ** -e["exp"] in lines[0].replace(name, "").split("=")[-1].split())
        word = lines[1].split() if len(lines) > 1 else []
        ok = ok and word[0] == "BANK" and word[2:5] == [str(n), str(e["nrec"]), "CONST"] and word[-1] == cs["mode"] and len(word) == 10 and len(lines[1]) >= 80
        ok = ok and word[1] == "1" and float(word[7]) == float(word[8]) == 0
        ok = ok and close([float(word[5]), float(word[6])], [100.0 * tth[0], 100.0 * (float(tth[-1]) - float(tth[0])) / (n - 1)], 0, 1e-5)
        ck.expect(ok, "gsas_writer: header and number of records", lines=lines[:3], want=e["nrec"], **info)
        if not ok:
            continue
        scale = 10.0 ** -e["exp"]
        bad = None
        for i, cell in enumerate(e["cells"]):
            row = lines[1 + cell["rec"]]
            try:
                if cs["mode"] == "STD":
                    fine = int(row[cell["at"]:cell["at"] + 2]) == 1 and int(row[cell["at"] + 2:cell["at"] + 8]) in e["val"][i]
                elif cs["mode"] == "ESD":
                    fine = int(row[cell["at"]:cell["at"] + 8]) in e["val"][i] and int(row[cell["at"] + 8:cell["at"] + 16]) in e["err"][i]
                else:
                    a, b, c = map(float, row.split())
                    fine = close([a, b, c], [tth[i], val[i] * scale, err[i] * scale], 1e-12, 1e-9)
            except ValueError:
                fine = False
            if not fine:
                bad = bad or (i, row)
        ck.expect(bad is None, "gsas_writer: every channel in its cell", bad=bad, **info)
        got = ck.real(io.gsas_reader, os.path.join(d, name + ".gsas") if rng.randint(2) else name + ".gsas")
        ok = not is_raised(got) and len(got) == 3 and len(got[0]) == len(got[1]) == len(got[2]) == n
        if ok:
            ok = close(got[0], tth, 0, 2e-7 * (1 + n))
            if cs["mode"] == "FXYE":
                ok = ok and close(got[1], np.maximum(val * scale, 0), 1e-9, 1e-9) and close(got[2], 1 / (err * scale) ** 2, 1e-5, 0)
            else:
                ok = ok and all(v in [max(u, 0) for u in w] for v, w in zip(got[1], e["val"]))
                if cs["mode"] == "STD":
                    ok = ok and close(got[2], [1.0 / v if v else 0 for v in got[1]], 1e-9, 0)
                else:
                    ok = ok and all(any(close(g, 1.0 / w**2 if w else 0, 1e-9, 0) for w in ws) for g, ws in zip(got[2], e["err"]))
        ck.expect(ok, "gsas_reader: angles, intensities and weights of the pattern", got=got, want=e["val"], scale=scale, **info)
        ck.expect(all(np.array_equal(a, b) for a, b in zip(keep, (tth, val, err))), "gsas_writer: leaves the arrays alone", **info)
        os.remove(os.path.join(d, name + ".gsas"))
        ck.traced()
        ck.sample(mode=cs["mode"], n=n, records=e["nrec"], exponent=e["exp"])
    # files of others: blank cells, several counts per channel, negative values
    for _ in range(ck.size(40, 300)):
        mode = ["STD", "ESD", "FXYE"][rng.randint(3)]
        n = int(rng.randint(1, 24))
        per = dict(STD=10, ESD=5, FXYE=1)[mode]
        cells, wy, wz, tt = [], [], [], 3 + 0.25 * np.arange(n)
        for i in range(n):
            y, s, c = int(rng.choice([0, -4, 7, 250, 99999, 999999])), int(rng.choice([0, 3, 16, -1, 87654321])), int(rng.choice([0, 1, 2, 3, 12, 99]))
            if mode == "ESD" and rng.randint(4) == 0:
                y = 12345678
            if mode == "STD":
                cells.append(("  " if c == 0 else "%2d" % c) + ("      " if y == 0 and rng.randint(2) else "%6d" % y))
                wy.append(max(y, 0))
                wz.append(max(c, 1) / y if y > 0 else 0)
            elif mode == "ESD":
                cells.append(("        " if y == 0 and rng.randint(2) else "%8d" % y) + "%8d" % s)
                wy.append(max(y, 0))
                wz.append(1.0 / s**2 if s > 0 else 0)
            else:
                cells.append("%12.4f %12.3f %12.3f" % (tt[i], y, s))
                wy.append(max(y, 0))
                wz.append(1.0 / s**2 if s > 0 else 0)
        rows = ["".join(cells[i:i + per]) for i in range(0, n, per)]
        if mode != "FXYE" and rng.randint(2):
            rows = ["%-80s" % v for v in rows]
        with open(os.path.join(d, "theirs.gsas"), "w") as f:
            f.write("\n".join(["a title", "BANK 1 %d %d CONST 300.0 25.0 0 0 %s" % (n, len(rows), mode)] + rows) + "\n")
        got = ck.real(io.gsas_reader, "theirs.gsas")
        ok = not is_raised(got) and close(got[0], tt) and close(got[1], wy) and close(got[2], wz, 1e-9, 0)
        ck.expect(ok, "gsas_reader: blank cells count zero, negative values are cut off", mode=mode, rows=rows, got=got, want=[wy, wz])
        ck.traced()
    with open("x.gsas", "w") as f:
        f.write("t\nBANK 1 1 1 CONST 300.0 25.0 0 0 ALT\n 1 3\n")
    ck.expect(is_raised(ck.real(io.gsas_reader, "x.gsas"), "ValueError"), "gsas_reader: unknown modes are refused")
    os.rename("x.gsas", "x.dat")
    ck.expect(is_raised(ck.real(io.gsas_reader, "x.dat"), "OSError"), "gsas_reader: other files are refused")
    os.remove("x.dat")
    os.remove("theirs.gsas")


# --------------------------------------------------- a directory of patterns
NAMES = ["a.chi", "a.dat", "a.xye", "a.gsas", "b.chi", "b.gsas", "b.msk", "b.1.chi", "b.1.gsas", "b.1.msk"]


def files(ck, rng, d):
    from skbeam import io
    from skbeam.io.fit2d import fit2d_save, read_fit2d_msk

    scripts = []
    for _ in range(ck.size(120, 1500)):
        ops = []
        for i in range(rng.randint(2, 7)):
            ops.append(dict(op=["save", "save", "refuse"][rng.randint(3)], file=NAMES[rng.randint(len(NAMES))], data=i + 1))
        scripts.append(ops)
    r = ck.tlc("Files", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS LastWins Report\nPROPERTIES Refused OnlyOne\n"
               "CONSTANTS Cases <- CasesDef\n  Names <- NamesDef\n", data=scripts,
               defs="CasesDef == Data\nNamesDef == {%s}" % ", ".join('"%s"' % n for n in NAMES), workers=4)
    logs = {e["case"]: e["log"] for e in r.out}
    nonvacuous(len(logs) == len(scripts), "scripts")
    for k, ops in enumerate(scripts):
        w = os.path.join(d, "w%d" % k)
        os.mkdir(w)
        told = {}
        trouble = None
        for i, op in enumerate(ops):
            base, ext = os.path.splitext(op["file"])
            n = int(rng.randint(2, 9)) if rng.randint(12) else int(rng.choice([100, 1000, 1025]))
            x = np.cumsum(rng.uniform(0.01, 1, n))
            y = rng.uniform(0, 10.0 ** rng.randint(-6, 6), n)
            e = rng.uniform(0, 3, n) if ext == ".xye" or rng.randint(2) else None
            kind = ["Q", "2theta"][rng.randint(2)]
            before = snapshot(w)
            if op["op"] == "refuse":
                got = refused(ck, io, fit2d_save, rng, base, ext, x, y, e, kind, w)
                if not is_raised(got, "ValueError"):
                    trouble = trouble or ("impossible requests are refused", op, got)
                if snapshot(w) != before:
                    trouble = trouble or ("a refused request changes no file", op, sorted(snapshot(w)))
                continue
            how = dict(dir_path=w) if rng.randint(2) else {}
            name = base if how else os.path.join(w, base)
            if ext == ".msk":
                m = rng.rand(int(rng.randint(1, 40)), int(rng.randint(1, 70))) < 0.5
                got = ck.real(fit2d_save, m, name, **how)
                told[op["file"]] = m
            elif ext == ".gsas":
                y = np.round(y)
                y[0] = 5
                x = 1 + 0.5 * np.arange(n)
                got = ck.real(io.gsas_writer, x, y, name, **how)
                told[op["file"]] = (x, y)
            else:
                more = dict(ext=ext) if ext != ".chi" or rng.randint(2) else {}
                if e is not None:
                    more["err"] = e
                got = ck.real(io.save_output, x, y, name, kind, **dict(more, **how))
                told[op["file"]] = (x, y, e, kind, name)
            if is_raised(got):
                trouble = trouble or ("a pattern is saved", op, got)
                break
            after = snapshot(w)
            if any(after.get(f) != before.get(f) for f in set(before) | set(after) if f != op["file"]):
                trouble = trouble or ("only the named file changes", op, sorted(after))
            if {n0 for n0, v in logs[k + 1][i].items() if v} != set(after):
                trouble = trouble or ("the files are those saved", op, sorted(after))
        for f, v in told.items() if trouble is None else ():
            p = os.path.join(w, f)
            if f.endswith(".msk"):
                got = ck.real(read_fit2d_msk, p)
                ok = not is_raised(got) and np.asarray(got).dtype == bool and np.array_equal(got, v)
            elif f.endswith(".gsas"):
                got = ck.real(io.gsas_reader, p)
                ok = not is_raised(got) and close(got[0], v[0]) and (v[1].max() > 999999 or close(got[1], v[1]))
            else:
                x, y, e, kind, name = v
                with open(p) as g:
                    text = g.read().split("\n")
                head = " ".join(" ".join(text[:8]).split())
                got = np.loadtxt(text[8:], ndmin=2)
                want = np.c_[x, y] if e is None else np.c_[x, y, e]
                ok = close(got, want, 1e-15, 0) and text[0] == name and ("Number of data points in the file : %d" % len(x)) in head \
                    and (("Q values" in head) == (kind == "Q")) and (("two theta" in head) == (kind == "2theta"))
            if not ok:
                trouble = ("what was saved last is read back", f, got)
        ck.expect(trouble is None, "files: " + (trouble[0] if trouble else ""), script=ops, trouble=trouble)
        for f in os.listdir(w):
            os.remove(os.path.join(w, f))
        os.rmdir(w)
        ck.traced()


def snapshot(w):
    out = {}
    for f in os.listdir(w):
        with open(os.path.join(w, f), "rb") as g:
            out[f] = g.read()
    return out


def refused(ck, io, fit2d_save, rng, base, ext, x, y, e, kind, w):
    """One of the requests that cannot be fulfilled, for this file."""
    gone = os.path.join(w, "no", "such", "place")
    if ext == ".msk":
        return ck.real(fit2d_save, np.ones((2, 2), bool), base, dir_path=gone)
    if ext == ".gsas":
        which = rng.randint(4)
        if which == 0:
            return ck.real(io.gsas_writer, x, y, base, dir_path=gone)
        if which == 1:
            return ck.real(io.gsas_writer, x, y[1:], base, dir_path=w)
        if which == 2:
            return ck.real(io.gsas_writer, x, y, base, mode="STD", err=y[1:], dir_path=w)
        return ck.real(io.gsas_writer, x, y, base, mode=["ALT", None, "esd"][rng.randint(3)], err=y, dir_path=w)
    which = rng.randint(5)
    if which == 0:
        return ck.real(io.save_output, x, y, base, kind, ext=ext, err=y, dir_path=gone)
    if which == 1:
        return ck.real(io.save_output, x[1:], y, base, kind, ext=ext, err=y, dir_path=w)
    if which == 2:
        return ck.real(io.save_output, x, y, base, kind, ext=ext, err=y[1:], dir_path=w)
    if which == 3:
        return ck.real(io.save_output, x, y, base, ["q", "d", ""][rng.randint(3)], ext=ext, err=y, dir_path=w)
    return ck.real(io.save_output, x, y, base, kind, ext=".xye", dir_path=w)


def masks(ck, rng, d):
    from skbeam.io.fit2d import fit2d_save, read_fit2d_msk

    for shape in [(1, 1), (1, 31), (3, 32), (2, 33), (64, 64), (5, 65), (7, 100), (300, 257), (3, 1100), (1025, 2)]:
        for m in (np.zeros(shape, bool), np.ones(shape, bool), rng.rand(*shape) < 0.3):
            keep = m.copy()
            a = ck.real(fit2d_save, m, "m", dir_path=d)
            got = ck.real(read_fit2d_msk, os.path.join(d, "m.msk"))
            ck.expect(not is_raised(a) and not is_raised(got) and np.asarray(got).dtype == bool and np.array_equal(got, m)
                      and np.array_equal(m, keep), "fit2d: the mask is read back", shape=shape, got=got)
            ck.traced()
    os.remove(os.path.join(d, "m.msk"))


# ------------------------------------------------------------------ volumes
def volumes(ck, rng, d):
    from skbeam import io

    for _ in range(ck.size(60, 500)):
        nx, ny, nz = (int(v) for v in rng.randint(1, 6, 3))
        if rng.randint(3) == 0:
            nz = 1
            if rng.randint(2):
                ny = 1
        if rng.randint(10) == 0:
            nx, ny, nz = (int(v) for v in rng.permutation([260, 3, 31]))
        dt = ["<i2", ">i2", "uint8", "<f4", ">f8", "int64", "<u4", "float16", "int8", "bool"][rng.randint(10)]
        vol = rng.randint(0, 100, (nx, ny, nz)).astype(dt)
        head = bytes(rng.randint(0, 256, int(rng.choice([0, 1, 7, 64, 512, 5000]))).astype(np.uint8))
        with open("v.bin", "wb") as f:
            f.write(head + vol.tobytes())
        got = ck.real(io.read_binary, "v.bin", nx, ny, nz, dt, len(head))
        want = vol if nz != 1 else (vol[:, :, 0] if ny != 1 else vol[:, 0, 0])
        ck.expect(not is_raised(got) and same_ints(got[0], want) and got[1] == head, "read_binary: header and volume", shape=[nx, ny, nz],
                  dtype=dt, got=got, want=want)
        ck.traced()
    os.remove("v.bin")
    amira(ck, rng, io)
    netcdf(ck, rng)


def amira(ck, rng, io):
    for _ in range(ck.size(60, 500)):
        nx, ny, nz = (int(v) for v in rng.randint(1, 6, 3))
        if rng.randint(8) == 0:  # larger ones
            nx, ny, nz = (int(v) for v in rng.permutation([130, 3, 41]))
        kind = ["float", "short", "ushort", "byte"][rng.randint(4)]
        fmt = ["BINARY-LITTLE-ENDIAN", "BINARY", "ASCII"][rng.randint(3)]
        lo, hi = dict(float=(-500, 500), short=(-3000, 3000), ushort=(0, 60000), byte=(0, 127))[kind]
        vol = rng.randint(lo, hi, (nz, ny, nx))
        if kind == "float":
            vol = vol / 4.0
        if rng.randint(2):
            vol.ravel()[0] = vol.ravel()[-1] = {"float": 2.0, "short": 0x0A0A}.get(kind, 10)  # newlines at the ends
        step = [[1.0, 1.0, 1.0], [1.0, 2.0, 0.5], [2.0, 2.0, 2.0], [0.5, 0.5, 0.5], [2.0, 2.0, 3.0], [2.0, 3.0, 2.0], [4.0, 2.0, 2.0], [0.25, 0.5, 0.5],
                [1.0, 1.0078125, 1.0], [1.0, 1.0, 0.9921875], [1.0, 1.015625, 1.0], [1.0, 0.984375, 1.0], [1.0, 1.0, 1.015625]][rng.randint(13)]
        org = [float(v) for v in rng.randint(-5, 6, 3)]
        box = [v for a, s, n in zip(org, step, (nx, ny, nz)) for v in (a, a + s * (n - 1))]
        lead = ["# Avizo %s 2.1", "# AmiraMesh 3D %s 3.0"][rng.randint(2)]
        head = "\n".join([lead % fmt, "", "", "define Lattice %d %d %d" % (nx, ny, nz), "", "Parameters {", "    Units {",
                          '        Coordinates "m"', "    }", '    Colormap "labels.am",',
                          '    Content "%dx%dx%d %s, uniform coordinates",' % (nx, ny, nz, kind),
                          "    BoundingBox %s," % " ".join("%.10g" % v for v in box), '    CoordType "uniform"', "}", "",
                          "Lattice { %s Labels } @1" % kind, "", "# Data section follows", "@1", ""])
        t = dict(float="f4", short="i2", ushort="u2", byte="i1")[kind]
        if fmt == "ASCII":
            body = " \n".join(" ".join("%r" % v for v in row) for row in vol.reshape(-1, nx).tolist()).encode() + b" \n"
        else:
            body = vol.astype(("<" if "LITTLE" in fmt else ">") + t).tobytes() + b"\n"
        with open("v.am", "wb") as f:
            f.write(head.encode() + body)
        got = ck.real(io.load_amiramesh, "v.am")
        info = dict(shape=[nz, ny, nx], kind=kind, format=fmt)
        if is_raised(got) or len(got) != 2:
            ck.fail("load_amiramesh: the volume is read", got=got, **info)
            continue
        md, arr = got
        ck.expect(same_ints(arr, vol[::-1]) and np.asarray(arr).dtype.kind in "iuf", "load_amiramesh: the volume, z upside down", got=arr, want=vol[::-1], **info)
        dims = md.get("array_dimensions", {})
        bb = md.get("bounding_box", {})
        rs = md.get("resolution", {})
        res = [s if n > 1 else 0 for s, n in zip(step, (nx, ny, nz))]
        iso = res[0] > 0 and all(abs(v / res[0] - 1) < 0.01 for v in res)
        ok = [dims.get(k) for k in ("x_dimension", "y_dimension", "z_dimension")] == [nx, ny, nz]
        ok = ok and [bb.get(k) for k in ("x_min", "x_max", "y_min", "y_max", "z_min", "z_max")] == box
        ok = ok and md.get("data_type") == kind and md.get("data_format") == fmt and md.get("coordinates") == "m" and md.get("coord_type") == "uniform"
        ok = ok and rs.get("type") == ("isotropic" if iso else "anisotropic")
        ok = ok and close(rs.get("zyx_value"), res[0] if iso else res[::-1])
        ok = ok and md.get("units") == "pixels" and md.get("data_format_version") == ("2.1" if "Avizo" in lead else "3.0")
        ck.expect(ok, "load_amiramesh: what the header says", got=md, lead=lead, box=box, **info)
        ck.traced()
    with open("v.am", "wb") as f:
        f.write(b"# Avizo BINARY 2.1\ndefine Lattice 2 2 2\n")
    ck.call_limit, keep = 20.0, ck.call_limit
    got = ck.real(io.load_amiramesh, "v.am")
    ck.call_limit = keep
    ck.expect(is_raised(got, "ValueError"), "load_amiramesh: a file without data is refused", got=got)
    os.remove("v.am")


def netcdf(ck, rng):
    try:
        import netCDF4
    except ImportError:
        return
    from skbeam.io.net_cdf_io import load_netCDF

    for i in range(ck.size(24, 100)):
        shape = tuple(int(v) for v in (rng.randint(1, 5, 3) if i % 5 else rng.permutation([70, 2, 33])))
        raw = rng.randint(0, 100, shape)
        factor = [None, 1.0, 2.0, 0.25][i % 4]
        px = [(1.0, 1.0, 0.0), (1.0, 1.0, 1.0), (1.0, 2.0, 0.0), (0.5, 0.5, 0.0)][rng.randint(4)]
        with netCDF4.Dataset("v.nc", "w", format="NETCDF3_CLASSIC") as f:
            for n, s in zip("zyx", shape):
                f.createDimension(n, s)
            v = f.createVariable("VOLUME", ["i2", "f4"][rng.randint(2)], ("z", "y", "x"))
            if factor is not None:
                v.scale_factor = factor
            v.set_auto_maskandscale(False)
            v[:] = raw
            f.x_pixel_size, f.y_pixel_size, f.z_pixel_size = px
            f.title = "run %d" % i
        got = ck.real(load_netCDF, "v.nc")
        if is_raised(got) or len(got) != 2:
            ck.fail("load_netCDF: the volume is read", got=got, factor=factor, shape=shape)
            continue
        md, arr = got
        one = factor in (None, 1.0)
        wants = [raw] if one else [raw * factor, raw / factor]
        ok = any(same_ints(arr, w) for w in wants)
        ck.expect(ok, "load_netCDF: the volume with its scale factor", scaled=not one, unscaled=bool(same_ints(arr, raw)), factor=factor, shape=shape,
                  got=arr, want=wants[0])
        iso = px[0] == px[1] and px[2] == 0.0 and shape[0] > 1
        ok = md.get("title") == "run %d" % i and [md.get(a + "_pixel_size") for a in "xyz"] == list(px) and ("voxel_size" in md) == iso
        ok = ok and (not iso or (md["voxel_size"]["value"] == px[0]))
        ck.expect(ok, "load_netCDF: what the file says about itself", got=md, pixel=px, shape=shape)
        ck.traced()
    os.remove("v.nc")
