"""Files: readers (C12), write_dat (C13) and metadata tables (C14)."""

import copy
import os
import warnings

import numpy as np
import pandas as pd

from drvlib import CodeError, call, calk, convert, core, dataset, files as calkfiles, must, num, pyco2, readt, rng_for, vec
from drv_table import Files, Recorder, clean, isnull, rows_of, table, text_of, titration_data

NAN = float("nan")


# ------------------------------------------------------------------ numerals
def numeral(rng, style, v):
    """Text of a value; what it denotes is up to the specification."""
    if style == "exp":
        return f"{v:.{int(rng.integers(2, 9))}{'e' if rng.random() < 0.5 else 'E'}}"
    if style == "sign":
        return f"{v if rng.random() < 0.5 else -v:+.4f}"
    if style == "int":
        return str(int(round(v)))
    if style == "pad":
        return " " * int(rng.integers(0, 3)) + f"{v:.3f}" + " " * int(rng.integers(0, 3))
    if style == "long":
        return repr(v)
    if style == "dot":
        return f"{v % 1:.3f}".lstrip("0") if rng.random() < 0.5 else f"{int(v)}."
    return f"{v:.{int(rng.integers(1, 6))}f}"


def read_event(f, path, c):
    """Read twice, record what came back."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        a, err = call(calk.read_dat, path, **c)
    b, _ = call(calk.read_dat, path, **c)
    said = " ".join(str(w.message) for w in ws)
    got = {"err": err, "named": bool(c.get("file_type") is not None and f"'{c['file_type']}'" in said.replace('"', "'")),
           "warned": "recognised" in said or "recognized" in said, "kept": f.kept(), "again": True,
           "fields": list(getattr(a, "_fields", ())) if a is not None else []}
    for k, name in enumerate(("amount", "measurement", "temperature")):
        got[name] = vec(a[k]) if a is not None else []
    if a is not None:
        got["again"] = bool(b is not None and all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True) for x, y in zip(a, b)))
        got["byname"] = bool(all(getattr(a, n, None) is not None and np.array_equal(np.asarray(getattr(a, n)), np.asarray(a[k]), equal_nan=True)
                                 for k, n in enumerate(("titrant_amount", "measurement", "temperature"))))
    else:
        got["byname"] = False
    return got


def c12(s, d):
    rng = rng_for(s)
    f = Files(d)
    path = ["f.dat", "dir/f g.txt", "0-0  0  (0)x-1.dat"][int(rng.integers(3))]
    c, enc, text = globals()["c12_" + s["kind"]](s, rng)
    f.put(path, text, enc)
    given = dict(c)
    got = read_event(f, path, c)
    if c != given:
        got["kept"] = False
    # what the reader must be told about the encoding: nothing for its default
    need = enc if s["kind"] == "delim" else ""
    cc = {k: v for k, v in c.items() if k != "encoding"} if s["kind"] == "tiamo" else c
    return {"text": text, "enc": need, "c": cc, "got": got}


def c12_delim(s, rng):
    sep = "\t" if s["delim"] == "tab" else s["delim"]
    style, extra = s["style"], s["extra"]
    if sep == " " and (style == "pad" or extra == "empty"):
        style, extra = "plain", "num"
    if sep == " " and extra == "text":
        extra = "num"
    enc = s["enc"]
    head = {"text": ["Titration 12", "amount\tEMF\ttemperature", "third, line; here", "more | text"],
            "numbers": ["1\t2\t3", "4,5,6", "7;8;9", "0.1 0.2 0.3"], "hash": ["# a comment", "x # y", "#", "##"],
            "blank": ["", "", " ", ""], "unicode": ["Temperatur [°C] µl", "äöü ß", "½", "é"]}[s["head"]]
    if s["head"] == "unicode" and not enc:
        enc = "utf-8"
    n, ncol = s["n"], s["ncol"]
    lines = list(head[: s["skip"]])
    ca, cm, ct = s["order"]
    rows = s["rows"]
    gap = "none" if sep == " " else s["gap"]
    odd = n // 2   # the line with a cell too few or too many
    for i in range(n):
        if i == 0 or not (rows == "same" or (rows == "twice" and i % 2)):
            v = {ca: (-1 if rows == "down" else 1) * 0.05 * i + float(rng.uniform(0, 0.01)), cm: float(rng.uniform(100, 700)), ct: float(rng.uniform(5, 35))}
            if rows == "zeros" and i in (0, n // 2, n - 1):
                v = {ca: 0.0, cm: 0.0, ct: 0.0}
            cells = []
        else:
            # the line before, again
            lines.append(next(x for x in reversed(lines) if x))
            continue
        for k in range(ncol):
            if k in v:
                cells.append(numeral(rng, style, v[k]))
            else:
                cells.append({"num": f"{rng.uniform(-5, 5):.2f}", "text": "ok", "empty": ""}[extra])
        if gap != "none" and n > 2 and i == n - 2:    # no reading here
            cells[s["order"][int(rng.integers(3))]] = {"cell": "", "word": "n/a", "nan": "nan"}[gap]
        if i == odd and n > 1 and rows in ("short", "long"):
            cells = cells[:-1] if rows == "short" else cells + ["1.5"]
        lines.append(sep.join(cells))
        if s["mid"] and i in (0, n // 2):
            lines.append("")
    eol = {"lf": "\n", "crlf": "\r\n"}[s["eol"]]
    text = eol.join(lines) + {"none": eol, "nonl": "", "blanks": eol * 4}[s["tail"]]
    c = {}
    if s["ft"] != "default":
        c["file_type"] = s["ft"]
    ex = s["explicit"]
    for name, v, dflt in (("col_titrant_amount", ca, 0), ("col_measurement", cm, 1), ("col_temperature", ct, 2), ("skip_header", s["skip"], 2)):
        if v != dflt or ex:
            c[name] = [v, float(v)][int(ex and rng.random() < 0.3)]
    if sep != "\t" or ex:
        c["delimiter"] = sep
    if enc:
        c["encoding"] = enc
    return c, enc, text


REPORT = ["$S PC/LIMS V1", "P 5.862.0024\tS 20014", "ADC 3.848.1210\tS 05660", "S -----\t", "\t", "$E", "CRM1\t\t85.9040\tg",
          "$S Mode 1\t07\tMET U\tV1.0"]


def c12_pclims(s, rng):
    """A PC LIMS report: lines of numbers amid other lines."""
    width = 7 if s["ncols"] == 7 else 6
    lines = {"none": [], "report": REPORT, "tabs": ["\t" * 8, "\t\t\t\t\t\t", "x" + "\t" * 7, "1\t2\t3\tfour\t5\tsix\t7", "\t\t6.2\t1331.7\t4\t5\t6\t7"],
             "few": ["1\t2\t3", "4", "12.5 13.5"], "path": ["C:\\Users\\lab\\new\\titration.txt", "\u00b0C \u00b5l", "\\x"]}[s["before"]]
    lines = list(lines)
    sign = lambda: "-" if s["neg"] and rng.random() < 0.4 else ""
    for i in range(s["n"]):
        if i and (s["rows"] == "same" or (s["rows"] == "twice" and i % 2)):
            lines.append(lines[-1])
            continue
        lines.append("\t".join([str(i + 1)] + [sign() + f"{rng.uniform(0, 300):.{int(rng.integers(0, 5))}f}" for _ in range(width - 1)]))
    lines += {"none": [], "nonl": [], "report": ["$E", "$S Results V1", "\t\t%\t-1", "1416.0\t2\t26\t1\t2\t4\t1\t2\t0"],
              "block": ["$E"] + ["\t".join(f"{rng.uniform(0, 9):.2f}" for _ in range(width)) for _ in range(5)],
              "tabs": ["\t\t6.2000\t1331.7\t4.0000\t-56.267\t22.2\t167.088", "\t" * 9, "end"]}[s["after"]]
    eol = {"lf": "\n", "crlf": "\r\n"}[s["eol"]]
    text = eol.join(lines) + ("" if s["after"] == "nonl" else eol)
    c = {"file_type": "pclims"}
    if s["ncols"] != 6:
        c["n_cols"] = s["ncols"]
    if s["opt"] or (s["order"] != [1, 2, 5]):
        c["col_titrant_amount"], c["col_measurement"], c["col_temperature"] = s["order"]
    return c, "latin-1", text


def c12_plines(s, rng):
    """Kinds of lines in any order (the alphabet of spec/model/ReaderMC.tla)."""
    lines = []
    for i, k in enumerate(s["lines"]):
        v = [str((i + 1) * 10 + j) for j in range(1, 7)]
        if k == "W":
            v[2] = "x"
        if k == "M":
            v[1] = ""
        lines.append({"T": "\t" * 7, "B": "", "S": "\t".join(v[:5])}.get(k, "\t".join(v)))
    return {"file_type": "pclims"}, "latin-1", "".join(x + "\n" for x in lines)


USED_DE = ("Volumen [mL]", "Messwert", "Temperatur [\u00b0C]")


def c12_tiamo(s, rng):
    enc = s["enc"]
    style = s["style"]
    cols = {"usual": ["Volumen [mL]", "Messwert", "dMW [pH]", "Zeit [s]", "Temperatur [\u00b0C]", "Berechnet 1", "Berechnet 2", "Berechnet 3"],
            "moved": ["Zeit [s]", "Temperatur [\u00b0C]", "Volumen [mL]", "dMW [pH]", "Messwert"],
            "few": ["Volumen [mL]", "Messwert", "Temperatur [\u00b0C]"]}[s["cols"]]
    lines = {"none": [], "sections": ["2024-10-25 11:17:44 UTC+2", "-13f375cc:192c2436d35:-7f6c", "", "Steilheit.1",
                                      "Zeit [s];Messwert;dU/dt [mV/min];Temperatur [\u00b0C]", "0.0;5.73;0.0;20.4", "2.0;6.33;-1169.5;20.5", "", ""],
             "numbers": ["1;2;3;4;5", "Gran", "Gran.1;", "Gran.12", "6;7;8;9;10"]}[s["before"]]
    v0 = {"zero": "0.0", "some": repr(float(rng.uniform(1, 7))), "int": "5"}[s["v0"]]
    lines = list(lines) + ["Start pH einstellen.1", "Zeit [s];Messwert;Volumen [mL];dV/dt [\u00b5L/min];Temperatur [\u00b0C]", "0.0;7.4;0.0;0.0;20.9",
                           f"2.0;7.41;{v0};1032.2;20.9", "", "", "Gran.1", ";".join(cols)]
    for i in range(s["n"]):
        if i and (s["rows"] == "same" or (s["rows"] == "twice" and i % 2)):
            lines.append(lines[-1])
            continue
        cells = [numeral(rng, style, float(v)) for v in rng.uniform(0.5, 30, len(cols))]
        if s["gap"] == "unused" and i % 3 == 1:
            cells = ["" if q not in USED_DE else x for q, x in zip(cols, cells)]
        if s["gap"] == "used" and i % 3 == 1:
            cells[cols.index(USED_DE[int(rng.integers(3))])] = ""
        lines.append(";".join(cells))
    text = "\n".join(lines) + {"none": "\n", "nonl": "", "blanks": "\n\n\n"}[s["tail"]]
    c = {"file_type": "tiamo_de"}
    if enc:
        c["encoding"] = enc
    return c, enc or "latin-1", text


# ---------------------------------------------------------------------- C13
def values(rng, kind, n):
    if kind == "tiny":
        return [float(10 ** rng.uniform(-12, -2)) for _ in range(n)]
    if kind == "huge":
        return [float(10 ** rng.uniform(4, 12)) for _ in range(n)]
    if kind == "neg":
        return [float(-rng.uniform(0, 50)) for _ in range(n)]
    if kind == "int":
        return [float(rng.integers(0, 500)) for _ in range(n)]
    if kind == "halves":
        return [float(rng.integers(0, 4000)) / 8 + float(rng.integers(0, 2)) * 0.0005 for _ in range(n)]
    return [float(rng.uniform(0, 600)) for _ in range(n)]


def boxed(box, x):
    return {"list": lambda: list(x), "array": lambda: np.array(x), "tuple": lambda: tuple(x), "series": lambda: pd.Series(x, index=range(5, 5 + len(x))),
            "f32": lambda: np.array(x, dtype=np.float32), "ints": lambda: [int(v) for v in x] if all(np.isfinite(x)) else list(x)}[box]()


def snapshot(d):
    snap = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), "rb") as h:
                snap[os.path.relpath(os.path.join(r, f), d)] = h.read()
    return snap


def c13(s, d):
    rng = rng_for(s)
    os.chdir(d)
    if s["kind"] == "solve":
        return c13_solve(s, d, rng)
    enc = s["enc"]
    opts = {}
    if enc:
        opts["encoding"] = enc
    if s["eol"] == "crlf":
        opts["newline"] = "\r\n"
    lines = {"default": {}, "custom": {"line0": "my titration # 3", "line1": "1\t2\t3"}, "empty": {"line0": "", "line1": ""},
             "unicode": {"line0": "\u00b0C", "line1": "\u00e4"} if enc else {"line0": "x"}}[s["lines"]]
    names = {"a": "a.dat", "b": "sub dir/b.dat"}
    os.makedirs("sub dir")
    PRE = {"none": "", "a": "a", "ab": "ab", "empty": "ab"}
    for p in PRE[s["pre"]]:
        with open(names[p], "wb") as h:
            h.write(b"" if s["pre"] == "empty" else b"user's own\nfile\n1\t2\t3\n4\t5\t6\n" if not enc else "user's own\nfile\n1\t2\t3\n4\t5\t6\n".encode(enc))
    with open("other.txt", "wb") as h:
        h.write(b"not to be touched\n")
    steps = []
    ids = {}

    def state():
        """Each file's content as a number (equal contents, equal numbers)."""
        out = {}
        for k, v in snapshot(d).items():
            out[k] = ids.setdefault(v, len(ids) + 1)
        return out
    for k, o in enumerate(s["ops"]):
        path = names[o["path"]]
        before = state()
        if o["op"] == "write":
            kind = s["data"][k]
            n = 1 if kind == "single" else 60 if kind == "many" else int(rng.integers(2, 9))
            cols = [values(rng, kind, n) for _ in range(3)]
            if kind == "nan":
                cols[int(rng.integers(3))][n // 2] = NAN
            args = [boxed(s["box"], x) for x in cols]
            vals = [[float(v) for v in a] for a in args]
            kept = copy.deepcopy(args)
            kw = dict(opts, **lines)
            for name, fm in zip(("titrant_amount_fmt", "measurement_fmt", "temperature_fmt"), s["fmts"]):
                if fm != ".3f":
                    kw[name] = fm
            if o["mode"] != "default":
                kw["mode"] = o["mode"]
            kwkept = dict(kw)
            r, err = call(calk.write_dat, path, *args, **kw)
            same = all(type(x) is type(y) and np.array_equal(np.asarray(x, float), np.asarray(y, float), equal_nan=True) for x, y in zip(args, kept))
            head, ends = [], []
            if not err and os.path.exists(path):
                with open(path, encoding=enc or None, newline="") as h:
                    text = h.read().split("\n")
                ends = sorted({"crlf" if x.endswith("\r") else "lf" for x in text[:-1]})
                head = [x.rstrip("\r") for x in text[:2]]
            steps.append(dict(op="write", path=path, mode=o["mode"], cols=vals, fmts=s["fmts"], err=err, before=before, after=state(),
                              argskept=bool(same and kw == kwkept), head=head, ends=ends, lines=lines, eol=s["eol"] or "lf"))
        else:
            r, err = call(calk.read_dat, path, **({"encoding": enc} if enc else {}))
            steps.append(dict(op="read", path=path, err=err, before=before, after=state(), cols=[vec(x) for x in r] if r is not None else []))
    # every file is read at the end
    for p in sorted(names):
        if os.path.exists(names[p]):
            r, err = call(calk.read_dat, names[p], **({"encoding": enc} if enc else {}))
            st = state()
            steps.append(dict(op="read", path=names[p], err=err, before=st, after=st, cols=[vec(x) for x in r] if r is not None else []))
    return {"files": sorted(names.values()), "pre": [names[p] for p in PRE[s["pre"]]], "empty": s["pre"] == "empty", "steps": steps}


def c13_solve(s, d, rng):
    mode = s["mode"]
    dat = titration_data(rng, "emf" if mode == "emf" else "pH", n=14)
    dd = readt.DatData(*[np.array(dat[k]) for k in ("amount", "measurement", "temperature")])
    fm = s["fmt"]
    must(calk.write_dat, "t.dat", *dd, titrant_amount_fmt=fm, measurement_fmt=fm, temperature_fmt=fm)
    kw = dict(analyte_mass=0.1, titrant_amount_unit="g", solve_mode=mode, dic=2000.0)
    r = must(calkfiles.solve, "t.dat", dat["m"], 33.0, **kw)
    cv = must(convert.amount_units, dd, 33.0, analyte_mass=0.1, titrant_amount_unit="g")
    tot, ks = must(core.totals_ks, cv, dic=2000.0)
    if mode == "emf":
        q = must(core.solve_emf, dat["m"], *cv[:4], tot, ks)
    elif mode == "pH_adjust":
        q = must(core.solve_emf, dat["m"], cv.titrant_mass, convert.pH_to_emf(cv.measurement, 0, cv.temperature), cv.temperature, cv.analyte_mass, tot, ks, emf0_init=0)
    elif mode == "pH":
        q = must(core.solve_pH, dat["m"], *cv[:4], tot, ks)
    else:
        q = must(core.solve_pH_gran, dat["m"], *cv[:4], tot, ks)
    return {"solve": [num(r.alkalinity), num(q.alkalinity)], "npts": [int(r.used.sum()), int(q.used.sum())]}


# ---------------------------------------------------------------------- C14
USUAL = ["run type", "bottle", "station", "cast", "niskin", "depth", "i.s. temperature", "salinity", "counts", "CT", "cert. CRM CT",
         "cert. CRM AT", "batch", "AT", "comment", "Lat.", "date", "time", "cell ID"]


def c14(s, d):
    rng = rng_for(s)
    return c14_dbs(s, d, rng) if s["kind"] == "dbs" else c14_table(s, d, rng)


def cellval(v):
    if isinstance(v, (pd.Timestamp, np.datetime64)):
        return None if pd.isnull(v) else pd.Timestamp(v).isoformat()
    return clean(v)


def full_table(ds):
    return {"cols": [str(c) for c in ds.columns], "index": [str(i) for i in ds.index], "dtypes": [str(t) for t in ds.dtypes],
            "rows": [{str(c): cellval(ds[c].iloc[i]) for c in ds.columns} for i in range(len(ds))]}


def c14_dbs(s, d, rng):
    f = Files(d)
    cols = list(USUAL)
    if s["cols"] == "fewer":
        cols = [c for c in cols if c not in ("counts", "CT", "comment", "Lat.", "cell ID", "AT")]
    elif s["cols"] == "moved":
        rng.shuffle(cols)
    elif s["cols"] == "good":       # the user's own column of good files
        cols.insert(int(rng.integers(len(cols) + 1)), "file_good")
    names, lines = set(), []
    for i, r in enumerate(s["rows"]):
        b = {"word": f"JUNK{i}", "number": str(100 + 7 * i), "zeros": f"{i + 3:04d}", "dash": f"20230221_ICOS-{i}", "space": f"st {i}"}[r["bottle"]]
        c = {k: "" for k in USUAL}
        c["run type"] = "" if r["run"] == "blank" else r["run"]
        c["bottle"] = b
        if r["run"] == "bottle" or rng.random() < 0.3:
            c.update(station=str(int(rng.integers(0, 300))), cast=str(int(rng.integers(0, 9))), niskin=str(int(rng.integers(1, 24))),
                     depth=f"{rng.uniform(0, 4000):.1f}" if rng.random() < 0.4 else str(int(rng.integers(0, 4000))))
        c["i.s. temperature"], c["salinity"] = "4.000", f"{rng.uniform(30, 36):.3f}"
        c["counts"], c["CT"] = str(int(rng.integers(0, 200000))), "NaN" if rng.random() < 0.3 else f"{rng.uniform(1900, 2100):.2f}"
        c["cert. CRM CT"] = "2037.68"
        c["cert. CRM AT"] = f"{rng.uniform(2200, 2300):.2f}" if r["cert"] else ["0.00", "NaN"][int(rng.integers(2))]
        c["batch"] = {"int": str(int(rng.integers(150, 199))), "none": "", "word": "B7"}[r["batch"]]
        c["comment"] = ["", "long run", "ok 2"][int(rng.integers(3))]
        c["Lat."] = f"{rng.uniform(-60, 60):.2f}"
        if r["dt"] in ("full", "notime"):
            c["date"] = f"{int(rng.integers(1, 13)):02d}/{int(rng.integers(1, 29)):02d}/{int(rng.integers(0, 38)):02d}"
        if r["dt"] in ("full", "nodate"):
            c["time"] = f"{int(rng.integers(0, 24)):02d}:{int(rng.integers(0, 60)):02d}"
        c["cell ID"] = "C_Aug13-18_1008"
        c["file_good"] = ["True", "False"][int(rng.random() < 0.4)]
        lines.append([c[k] for k in cols])
    if s["dup"]:     # the same line once more
        k = int(rng.integers(len(lines)))
        lines.insert(int(rng.integers(k + 1, len(lines) + 1)), list(lines[k]))
    eol = {"lf": "\n", "crlf": "\r\n"}[s["eol"]]
    text = "\t".join(cols) + eol + "".join("\t".join(x) + "\t" * s["trail"] + eol for x in lines)
    dbs = ["t.dbs", "sub/x.dbs", "./t.dbs"][int(rng.integers(3))]
    f.put(dbs, text)
    kw = {}
    if s["amount"] == "volume":
        kw["analyte_volume"] = float(rng.uniform(90, 110))
    elif s["amount"] == "mass":
        kw["analyte_mass"] = float(rng.uniform(0.09, 0.11))
    if s["path"] != "none":
        kw["file_path"] = {"dir": "titrations", "dirslash": "titrations/"}[s["path"]]
    if s["fmt"]:
        kw["filename_format"] = "".join(p["lit"] if "lit" in p else "{" + p["fld"] + (f":0{p['w']}d" if p["w"] else "") + "}" for p in s["fmt"])
    ds, err = call(calk.read_dbs, dbs, **kw)
    ev = {"fname": dbs, "head": cols, "lines": lines, "fmt": s["fmt"], "kw": {k: v for k, v in kw.items() if k != "filename_format"}, "err": err,
          "isds": isinstance(ds, calk.Dataset), "kept": f.kept(), "tab": full_table(ds) if ds is not None else {"cols": [], "index": [], "rows": []},
          "files": {}, "envs": [], "steps": []}
    if s["solve"] and not err and any(r["run"] == "CRM" and r["cert"] for r in s["rows"]):
        rec = Recorder(f)
        for nm in dict.fromkeys(ds["file_name"]):
            if isinstance(nm, str) and nm and rng.random() < 0.9:
                f.put((kw["file_path"].rstrip("/") + "/" if "file_path" in kw else "") + nm, text_of(rows_of(titration_data(rng, "emf", n=16))))
        paths = {os.path.normpath(p): p for p in f.text}
        if "file_path" in kw:        # the spec joins as os.path.join does
            for p in list(f.text):
                if p.startswith("titrations/"):
                    pass
        rec.step(ds, "calibrate", {})
        ev.update(rec.event())
    return ev


def c14_table(s, d, rng):
    f = Files(d)
    n = s["n"]
    rows = []
    for k in range(n):
        dat = titration_data(rng, "pH", n=10)
        f.put(f"f{k}.dat", text_of(rows_of(dat)))
        rows.append({"file_name": f"f{k}.dat", "salinity": round(float(rng.uniform(30, 36)), 2), "analyte_mass": 0.1, "titrant_amount_unit": "g",
                     "dic": round(float(rng.uniform(1800, 2000)), 1), "alkalinity_certified": round(dat["alk"], 2) if k == 0 or rng.random() < 0.5 else None,
                     "solve_mode": ["pH", "pH_gran", "pH_adjust"][int(rng.integers(3))], "analysis_batch": 0, "file_good": True, "note": f"n{k}"})
    df = pd.DataFrame(rows)
    kw = {"index_col": 0} if s["index"] else {}
    ext = {"read_csv": "csv", "read_excel": "xlsx", "read_table": "txt", "read_fwf": "txt"}[s["fn"]]
    path = "table." + ext
    if s["opt"] == "usecols" and s["fn"] != "read_fwf":
        kw["usecols"] = (["id"] if s["index"] else []) + ["file_name", "salinity", "note"]
    elif s["opt"] == "nrows":
        kw["nrows"] = 2
    elif s["opt"] == "skiprows":
        kw["skiprows"] = [1]
    elif s["opt"] == "na":
        kw["na_values"] = ["n0"]
    elif s["opt"] == "dtype":
        kw["dtype"] = {"dic": str} if s["fn"] != "read_fwf" else None
    kw = {k: v for k, v in kw.items() if v is not None}
    if s["opt"] == "nullrow":      # a line without any value
        df = df.astype(object)
        df.iloc[n // 2] = None
    out = df.copy()
    out.index = [f"r{k}" for k in range(n)]
    out.index.name = "id"
    if s["fn"] == "read_csv":
        out.to_csv(path, index=s["index"])
    elif s["fn"] == "read_excel":
        out.to_excel(path, index=s["index"])
    elif s["fn"] == "read_table":
        out.to_csv(path, index=s["index"], sep="\t")
    else:
        with open(path, "w") as h:
            body = [(["id"] if s["index"] else []) + list(df.columns)]
            body += [([f"r{k}"] if s["index"] else []) + ["" if isnull(v) else str(v) for v in df.iloc[k]] for k in range(n)]
            h.write("\n".join("".join(f"{x:<24}" for x in b) for b in body) + "\n")
        kw["widths"] = [24] * len(body[0])
    raw = open(path, "rb").read()
    ref = getattr(pd, s["fn"])(path, **kw)
    ds, err = call(getattr(calk, s["fn"]), path, **kw)
    same = open(path, "rb").read() == raw
    ev = {"err": err, "isds": isinstance(ds, calk.Dataset), "kept": bool(same), "tab": full_table(ds) if ds is not None else {},
          "ref": full_table(ref), "files": {}, "envs": [], "steps": []}
    os.remove(path)
    if s["solve"] and not err:
        rec = Recorder(f)
        rec.step(ds, "calibrate" if rng.random() < 0.5 else "calkulate", {})
        ev.update(rec.event())
    return ev
