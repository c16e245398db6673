"""Dataset operations: builds tables and files, runs operations, records them."""

import os
import re
import warnings

import numpy as np
import pandas as pd

from drvlib import (KNAMES, SALTS, CodeError, bench_pH, call, calk, dataset, emf_of, env_for, files, must, num, pyco2, rho_sw,
                    rng_for, slope, unit_factor, vec, write_file)

NAN = float("nan")
READ = {"col_measurement", "col_temperature", "col_titrant_amount", "delimiter", "encoding", "file_type", "n_cols",
        "skip_header"}
UNIT = {"analyte_mass", "analyte_volume", "molinity_H2SO4", "molinity_HCl", "molinity_NaCl", "temperature_override",
        "titrant", "titrant_amount_unit", "titrant_density"}
TOTAL = {"dic", "total_alpha", "total_ammonia", "total_beta", "total_borate", "total_fluoride", "total_phosphate",
         "total_silicate", "total_sulfate", "total_sulfide"}
CHEM = set(KNAMES) | TOTAL | {"dilute_totals_for_ks", "opt_k_bisulfate", "opt_k_carbonic", "opt_k_fluoride",
                              "opt_pH_scale", "opt_total_borate"}
SOLVE = {"alkalinity_init", "double", "emf0_init", "gran_logic", "pH_max", "pH_min", "solve_mode",
         "titrant_molinity_init", "titrant_normality", "titrant_total_fluoride", "titrant_total_phosphate",
         "titrant_total_sulfate"}
OPTIONS = READ | UNIT | CHEM | SOLVE | {"file_path"}


# ------------------------------------------------------------ files and data
def titration_data(rng, mode, n=12, alk=None, S=33.0, m=None, mass=0.1, t=None, dic=None, alks=None):
    """A plausible titration curve (not exact for other options)."""
    alk = float(rng.uniform(1900, 2600)) if alk is None else alk
    m = 0.1 if m is None else m
    t0 = float(rng.uniform(18, 26)) if t is None else t
    temp = np.round(t0 + np.linspace(0, 0.8, n), 3)
    ex = 10 ** -2.75
    end = mass * (alk * 1e-6 + ex) / (m - ex)
    tm = np.concatenate([[0.0], np.linspace(0.72, 1.0, n - 1) * end])
    amount = np.round(tm * 1e3, 4)
    tm = amount * 1e-3
    df = mass / (tm + mass)
    env = env_for({}, S, temp, df)
    T = {k: env[k] * 1e-6 * df for k in SALTS}
    T["dic"] = (0.9 * alk if dic is None else dic) * 1e-6 * df
    K = {k: np.asarray(v) for k, v in env["k"].items()}
    pH = bench_pH(alk * 1e-6 * df - tm * m / (tm + mass), T, K)
    if mode == "emf":
        meas = emf_of(pH, float(rng.uniform(350, 600)), temp) + 0.03 * rng.standard_normal(n)
    else:
        meas = pH + 0.001 * rng.standard_normal(n)
    return dict(amount=[float(x) for x in amount], measurement=[float(np.round(x, 5)) for x in meas],
                temperature=[float(x) for x in temp], alk=alk, m=m)


def rows_of(dat, order=("amount", "measurement", "temperature")):
    return list(zip(*[dat[k] for k in order]))


def text_of(rows, header=("titration", "a\tb\tc"), sep="\t"):
    return "".join(h + "\n" for h in header) + "".join(sep.join(repr(float(v)) for v in r) + "\n" for r in rows)


class Files:
    """Files of a scenario, under the scratch directory, which is also the cwd."""

    def __init__(self, d):
        self.d = d
        self.text, self.enc = {}, {}
        os.chdir(d)

    def put(self, path, text, enc=""):
        full = os.path.join(self.d, path)
        os.makedirs(os.path.dirname(full) or ".", exist_ok=True)
        with open(full, "w", encoding=enc or "ascii", newline="") as f:
            f.write(text)
        self.text[path], self.enc[path] = text, enc

    def record(self):
        return {p: {"text": self.text[p], "enc": self.enc[p]} for p in self.text}

    def kept(self):
        """No file changed, vanished or appeared."""
        found = set()
        for r, _, fs in os.walk(self.d):
            for f in fs:
                found.add(os.path.relpath(os.path.join(r, f), self.d))
        if found != {os.path.normpath(p) for p in self.text}:
            return False
        for p in self.text:
            with open(os.path.join(self.d, p), encoding=self.enc[p] or "ascii", newline="") as f:
                if f.read() != self.text[p]:
                    return False
        return True


# ------------------------------------------------------------- resolution
def expand(kw):
    k = dict(kw)
    k.update(kw.get("read_dat_kwargs", {}))
    if "pH_range" in k:
        k["pH_min"], k["pH_max"] = k["pH_range"]
    if "read_dat_method" in k:
        k["file_type"] = k["read_dat_method"]
    return k


def resolve(row, kw):
    k = expand(kw)
    if not isnull(row.get("read_dat_method")):
        k["file_type"] = row["read_dat_method"]
    c = {o: v for o, v in k.items() if o in OPTIONS}
    c.update({o: v for o, v in row.items() if o in OPTIONS and not isnull(v)})
    return c


def isnull(v):
    return v is None or v is pd.NaT or v is pd.NA or (isinstance(v, (float, np.floating)) and np.isnan(v))


def clean(v):
    """A cell as recorded."""
    if isnull(v):
        return None
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, (list, tuple)):
        return [clean(x) for x in v]
    if isinstance(v, dict):
        return {k: clean(x) for k, x in v.items()}
    return v


def table(ds):
    cols = [str(c) for c in ds.columns]
    return {"cols": cols, "index": [str(i) for i in ds.index],
            "rows": [{c: clean(ds[c].iloc[i]) for c in ds.columns} for i in range(len(ds))]}


def parse(text, c):
    """Temperatures and amounts of a file (for asking PyCO2SYS), None if hopeless."""
    try:
        ft = c.get("file_type", "genfromtxt")
        lines = text.splitlines()
        if ft == "pclims":
            n = int(c.get("n_cols", 6))
            numre = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
            rows, on = [], False
            for x in lines:
                p = x.split("\t")
                if len(p) >= n and all(numre.match(y) for y in p[:n]):
                    rows.append(p)
                    on = True
                elif on:
                    break
            ca, ct = int(c.get("col_titrant_amount", 1)), int(c.get("col_temperature", 5))
        else:
            rows = [x.split(c.get("delimiter", "\t")) for x in lines[int(c.get("skip_header", 2)):] if x.strip()]
            ca, ct = int(c.get("col_titrant_amount", 0)), int(c.get("col_temperature", 2))
        a = np.array([float(r[ca]) for r in rows])
        t = np.array([float(r[ct]) for r in rows])
        return (a, t) if len(a) > 1 else None
    except (ValueError, IndexError):
        return None


UNITS_OK = {"ml", "g", "kg"}


class Recorder:
    """Runs operations on a dataset and records them for TableTrace."""

    def __init__(self, files):
        self.files = files
        self.envs, self.keys, self.steps = [], {}, []

    def env(self, c, S, at):
        a, t = at
        if "temperature_override" in c:
            t = np.full(len(t), float(c["temperature_override"]))
        am = c.get("analyte_mass")
        try:
            if am is None:
                am = c["analyte_volume"] * rho_sw(t[0], S) * 1e-3
            tm = a * unit_factor(c)
        except (KeyError, TypeError):
            return 0
        key = repr((sorted((k, v) for k, v in c.items() if k in CHEM and k not in ("dic",)), S, t.tolist(), am, tm.tolist()))
        if key not in self.keys:
            self.envs.append(env_for(c, S, t, am / (tm + am), int(c.get("opt_pH_scale", 3))))
            self.keys[key] = len(self.envs)
        return self.keys[key]

    def step(self, ds, op, kw, fn=None, snapshot=False):
        before = table(ds)
        given = {k: v for k, v in kw.items() if v is not None}
        salts, eff, ref = [], [], []
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            for r in before["rows"]:
                S = float(r["salinity"]) if not isnull(r.get("salinity")) else NAN
                otb = r.get("opt_total_borate")
                okc = r.get("opt_k_carbonic")
                okc = given.get("opt_k_carbonic", 10) if isnull(okc) else okc
                s = pyco2.sys(salinity=S, opt_total_borate=int(1 if isnull(otb) else otb), opt_k_carbonic=int(okc))
                sv = {k: float(s[k]) for k in SALTS}
                salts.append(sv)
                # cells as preparing leaves them
                p = dict(r)
                if "opt_total_borate" not in given and isnull(p.get("opt_total_borate")):
                    p["opt_total_borate"] = 1
                for k in SALTS:
                    if k in given or (k == "total_borate" and "opt_total_borate" in given):
                        continue
                    if isnull(p.get(k)):
                        p[k] = sv[k]
                if "titrant_amount_unit" in p and isnull(p["titrant_amount_unit"]) and "titrant_amount_unit" not in given:
                    p["titrant_amount_unit"] = "ml"
                c = resolve(p, kw)
                eff.append(c)
                path = str(p.get("file_name"))
                if "file_path" in c:
                    path = os.path.join(c["file_path"], path)
                f = self.files
                ok = path in f.text and (not f.enc[path] or c.get("encoding") == f.enc[path])
                at = parse(f.text[path], c) if ok else None
                ref.append(self.env(c, S, at) if at is not None else 0)
        kept = repr(kw)
        fn = fn or (lambda: getattr(ds, op)(**kw))
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            ret, err = call(fn)
        names = set(kw) | set(kw.get("read_dat_kwargs", {}))
        warned = named(names, ws)
        self.steps.append(dict(op=op, kw=kw, before=before, after=table(ds), err=err, same=bool(ret is ds), kwkept=bool(repr(kw) == kept),
                               fileskept=self.files.kept(), warned=warned, salts=salts, eff=eff, envref=ref))
        if snapshot:
            self.steps[-1]["files"] = self.files.record()
        return ret, err

    def event(self, **more):
        return dict(files=self.files.record(), envs=self.envs, steps=self.steps, **more)


# ------------------------------------------------------------------- C05
BOOST = {"total_silicate": "k_silicate", "total_ammonia": "k_ammonia", "total_sulfide": "k_sulfide", "total_borate": "k_borate",
         "opt_total_borate": "k_borate", "total_alpha": "k_alpha", "total_beta": "k_beta"}
TOTAL_OF = {"k_silicate": "total_silicate", "k_ammonia": "total_ammonia", "k_sulfide": "total_sulfide", "k_alpha": "total_alpha",
            "k_beta": "total_beta", "k_phosphoric_1": "total_phosphate", "k_phosphoric_2": "total_phosphate",
            "k_phosphoric_3": "total_phosphate"}


def three(o, rng):
    """Three different effective values of an option: two cells and a kwarg."""
    u = lambda lo, hi: [float(x) for x in lo + (hi - lo) * np.array([0.05, 0.5, 0.95])[rng.permutation(3)]]
    if o in ("k_bisulfate", "k_fluoride"):
        return [10**-x for x in u({"k_bisulfate": 0.8, "k_fluoride": 2.2}[o], {"k_bisulfate": 1.3, "k_fluoride": 2.9}[o])]
    if o == "k_phosphoric_1":
        return [10**-x for x in u(1.3, 2.2)]
    if o == "k_phosphoric_3":
        return [10**-x for x in u(6.6, 7.4)]
    if o == "k_water":
        return [10**-x for x in u(9.2, 10.2)]
    if o == "k_carbonic_2":
        return [10**-x for x in u(6.3, 7.0)]
    if o.startswith("k_"):
        return [10**-x for x in u(5.0, 5.9)]
    if o == "dic":
        return u(1200, 2400)
    if o == "total_sulfate":
        return u(15000, 33000)
    if o == "total_fluoride":
        return u(20, 150)
    if o in TOTAL:
        return u(20, 400)
    table = {
        "analyte_mass": lambda: u(0.09, 0.115), "analyte_volume": lambda: u(90, 112),
        "molinity_H2SO4": lambda: u(0.1, 0.9), "molinity_HCl": lambda: u(0.02, 0.6), "molinity_NaCl": lambda: u(0.1, 0.95),
        "temperature_override": lambda: u(12, 29), "titrant": lambda: ["H2SO4", "HCl", "h2so4"],
        "titrant_amount_unit": lambda: ["ml", "g", "g"] if rng.random() < 0.5 else ["g", "g", "ml"],
        "titrant_density": lambda: u(0.98, 1.07),
        "dilute_totals_for_ks": lambda: [True, False, True] if rng.random() < 0.5 else [True, True, False],
        "opt_k_bisulfate": lambda: [2, 1, 2], "opt_k_fluoride": lambda: [2, 1, 2], "opt_total_borate": lambda: [2, 1, 2],
        "opt_k_carbonic": lambda: [4, 9, 13] if rng.random() < 0.6 else [7, 4, 7], "opt_pH_scale": lambda: [[1, 2, 1], [2, 3, 1], [1, 3, 2]][rng.integers(3)],
        "pH_min": lambda: u(2.9, 3.15), "pH_max": lambda: u(3.6, 4.3), "titrant_molinity_init": lambda: u(0.096, 0.109),
        "titrant_normality": lambda: u(0.9, 1.1), "titrant_total_sulfate": lambda: u(0.3, 1), "titrant_total_phosphate": lambda: u(0.01, 0.04),
        "titrant_total_fluoride": lambda: u(0.01, 0.04), "alkalinity_init": lambda: u(2000, 2500),
        "double": lambda: [False, True, False] if rng.random() < 0.5 else [False, False, True],
        "gran_logic": lambda: ["legacy", "v23.7+", "legacy"] if rng.random() < 0.5 else ["legacy", "legacy", "v23.7+"],
        "solve_mode": lambda: [["pH_gran", "pH_adjust", "pH"], ["pH", "pH_gran", "pH_adjust"], ["pH_adjust", "pH", "pH_gran"]][rng.integers(3)],
        "col_measurement": lambda: [3, 1, 4], "col_titrant_amount": lambda: [5, 0, 6], "col_temperature": lambda: [7, 2, 8],
        "skip_header": lambda: [4, 2, 3], "delimiter": lambda: [",", ";", ","], "encoding": lambda: ["utf-16", "utf-16", "utf-16"],
        "file_type": lambda: ["pclims", "vindta", "pclims"], "n_cols": lambda: [7, 6, 7], "emf0_init": lambda: [0.0, 0.0, 0.0], "file_path": lambda: ["p1", "p2/", "p3"],
    }
    return table[o]()


ZERO = {"dic", "total_borate", "total_sulfate", "total_fluoride", "total_phosphate", "total_ammonia", "total_silicate", "temperature_override",
        "molinity_NaCl", "titrant_total_sulfate", "titrant_total_phosphate", "titrant_total_fluoride"}


def frame_for(s, d, rng, cols, nrow, op, mode, files, extra):
    """Dataset with the given option columns; batches are separate rows."""
    n = nrow
    row = {"file_name": extra.pop("file_name", ["f.dat"] * n), "salinity": [float(x) for x in np.round(rng.uniform(30, 36, n), 2)]}
    if op == "solve":
        row["titrant_molinity"] = [float(x) for x in rng.uniform(0.095, 0.105, n)]
    else:
        row["alkalinity_certified"] = [float(x) for x in rng.uniform(2100, 2400, n)]
        row["analysis_batch"] = list(range(n))
    row.update(extra)
    row.update(cols)
    order = list(row)
    rng.shuffle(order)
    df = pd.DataFrame({k: row[k] for k in order}, index=extra.get("_index"))
    if s.get("kind") in ("option", "many") and rng.random() < 0.3:     # nulls as pandas.NA
        for k in cols:
            df[k] = df[k].convert_dtypes()
    return calk.Dataset(df)


def c05(s, d):
    rng = rng_for(s)
    f = Files(d)
    mode, op, n = s["mode"], s["op"], 3
    base = {"solve_mode": [mode] * n, "titrant_amount_unit": ["g"] * n, "analyte_mass": [0.1] * n, "dic": [2000.0] * n}
    if mode == "emf":
        del base["solve_mode"]
    dat = titration_data(rng, "emf" if mode == "emf" else "pH", n=12)
    cols, kw = {}, {}
    fname = ["f.dat"] * n

    def option(o, col, kwarg, cells=None):
        v = three(o, rng)
        if o in ZERO and rng.random() < 0.4:      # zero is a value, too
            v[int(rng.integers(3))] = 0.0
        base.pop(o, None)
        if o in BOOST and not (s["kind"] == "many" and BOOST[o] in s["opts"]):
            base[BOOST[o]] = [10**-5.2] * n
        if o in TOTAL_OF and not (s["kind"] == "many" and TOTAL_OF[o] in s["opts"]):
            base[TOTAL_OF[o]] = [60.0] * n
        if o == "k_fluoride":
            base["total_fluoride"] = [120.0] * n
        if o in ("k_alpha", "k_beta") and not col and not kwarg:
            pass
        if o == "analyte_volume":
            base.pop("analyte_mass", None)
        if o.startswith("molinity") or o in ("titrant", "titrant_density"):
            base["titrant_amount_unit"] = ["ml"] * n
        if o == "molinity_H2SO4":
            base["titrant"] = ["H2SO4"] * n
        if o == "emf0_init":
            e = emf0_guess(dat)
            v = [e + 6.0, e - 6.0, e + 2.0] if rng.random() < 0.5 else [e - 5.0, e + 3.0, e + 7.0]
            base["double"] = [False] * n
        if o == "double":
            e = emf0_guess(dat)
            base["emf0_init"] = [e + 9.0] * n
        if col:
            cells = cells or ["v", "null", "w"]
            c = [{"v": v[0], "w": v[1], "null": None}[x] for x in cells]
            cols[o] = c
        if kwarg:
            kw[o] = v[2]
        return v

    if s["kind"] in ("option",):
        o = s["opt"]
        perm = [["v", "null", "w"], ["null", "v", "w"], ["w", "v", "null"]][rng.integers(3)]
        v = option(o, s["col"], s["kw"], perm)
        if o in ("analyte_mass",) and not s["col"]:
            base["analyte_volume"] = [99.0] * n
        if o == "analyte_volume" and not s["col"]:
            base["analyte_mass"] = [NAN, 0.101, NAN]
        if o in ("k_alpha", "k_beta") and (not s["col"]) and not s["kw"]:
            base.pop(TOTAL_OF[o])
        reading(o, s, f, rng, dat, base, cols, mode, fname)
    elif s["kind"] == "legacy":
        legacy(s, f, rng, dat, base, cols, kw, fname, mode, n)
    elif s["kind"] == "unknown":
        kw.update({k: 1.5 for k in s["names"]})
        kw["pH_max"] = 4.2
        f.put("f.dat", text_of(rows_of(dat)))
    else:
        for o in sorted(s["opts"]):
            cells = [["v", "null", "w"][rng.integers(3)] for _ in range(n)]
            option(o, bool(rng.random() < 0.7), bool(rng.random() < 0.5), cells)
        for a in ("alpha", "beta"):   # an acid needs both its total and its constant
            if "k_" + a in cols or "k_" + a in kw or "total_" + a in cols or "total_" + a in kw or "total_" + a in base:
                base.setdefault("k_" + a, [10**-5.1] * n) if "k_" + a not in cols else None
                if "k_" + a in cols:
                    cols["k_" + a] = [10**-5.1 if isnull(x) else x for x in cols["k_" + a]]
        for k in list(base):
            if k in cols:
                del base[k]
        f.put("f.dat", text_of(rows_of(dat)))
    ds = frame_for(s, d, rng, cols, n, op, mode, f, dict(base, file_name=fname))
    if rng.random() < 0.2:
        kw["verbose"] = bool(rng.random() < 0.7)
    rec = Recorder(f)
    rec.step(ds, op, kw)
    return rec.event(**({"direct": direct(rng, kw, fname[0])} if s["kind"] == "unknown" else {}))


def direct(rng, kw, fname):
    """The functions for a single file, with the same kwargs."""
    out = []
    kw = {k: v for k, v in kw.items() if k not in ("file_name", "salinity", "titrant_molinity", "alkalinity_certified", "verbose")}
    kw.update(analyte_mass=0.1, titrant_amount_unit="g", solve_mode="pH")
    for fn, value in (("solve", 0.1), ("calibrate", 2300.0)):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            _, err = call(getattr(files, fn), fname, value, 35.0, **kw)
        out.append(dict(fn=fn, kw=kw, err=err, warned=named(kw, ws)))
    return out


def named(names, ws):
    """The names that the warnings give."""
    said = " \n".join(str(w.message) for w in ws if "ignored" in str(w.message) or "recognised" in str(w.message))
    return sorted(k for k in names if re.search(r"(?<![\w])" + re.escape(k) + r"(?![\w])", said))


def emf0_guess(dat):
    i = -3
    pH = 3.0
    return float(dat["measurement"][i] + 2.302585 * pH * slope(dat["temperature"][i])) if dat["measurement"][i] > 20 else 0.0


def reading(o, s, f, rng, dat, base, cols, mode, fname):
    """Files whose layout makes the reading option matter."""
    alt = titration_data(rng, "emf" if mode == "emf" else "pH", n=12)
    alt2 = titration_data(rng, "emf" if mode == "emf" else "pH", n=12)
    if o in ("col_measurement", "col_temperature", "col_titrant_amount"):
        key = {"col_measurement": "measurement", "col_temperature": "temperature", "col_titrant_amount": "amount"}[o]
        shift = o == "col_temperature" or (mode == "emf" and o == "col_measurement")
        x1 = [x + 2 if shift else x * 1.003 for x in dat[key]]
        x2 = [x - 3 if shift else x * 0.997 for x in dat[key]]
        rows = [[a, b, c, x if o == "col_measurement" else -1, y if o == "col_measurement" else -2,
                 x if o == "col_titrant_amount" else -3, y if o == "col_titrant_amount" else -4,
                 x if o == "col_temperature" else -5, y if o == "col_temperature" else -6]
                for (a, b, c), x, y in zip(rows_of(dat), x1, x2)]
        f.put("f.dat", text_of(rows))
    elif o == "skip_header":
        f.put("f.dat", text_of([(0.0, dat["measurement"][0] * 1.5, 21.0), (0.01, dat["measurement"][0] * 1.3, 22.0)] + rows_of(dat)))
    elif o == "delimiter":
        v = cols.get(o, [None] * 3)
        for i in range(3):
            fname[i] = f"f{i}.dat"
            sep = v[i] if not isnull(v[i]) else ("," if s["kw"] else "\t")
            f.put(fname[i], text_of(rows_of(dat), header=("h", "a"), sep=sep))
        if rng.random() < 0.3:      # one row's file has another delimiter than stated: unreadable
            f.put(fname[2], text_of(rows_of(dat), header=("h", "a"), sep="|"))
    elif o == "encoding":
        v = cols.get(o, [None] * 3)
        for i in range(3):
            fname[i] = f"f{i}.dat"
            f.put(fname[i], text_of(rows_of(dat)), "utf-16" if (i != 2 or not isnull(v[i])) else "")
    elif o == "file_type":
        rows = [[i, a, b, 0, 0, c] for i, (a, b, c) in enumerate(rows_of(dat))]
        f.put("f.dat", text_of(rows))
    elif o == "n_cols":
        base["file_type"] = ["pclims"] * 3
        r6 = [[i, a, b, 0, 0, c] for i, (a, b, c) in enumerate(rows_of(dat))]
        r7 = [[i, a, b, 0, 0, c, 1] for i, (a, b, c) in enumerate(rows_of(alt))]
        f.put("f.dat", text_of(r6) + "end of block\n" + text_of(r7, header=("x",)))
    elif o == "file_path":
        for p, dd in (("", dat), ("p1/", alt), ("p2/", alt2), ("p3/", titration_data(rng, "emf" if mode == "emf" else "pH", n=12))):
            f.put(p + "f.dat", text_of(rows_of(dd)))
    else:
        f.put("f.dat", text_of(rows_of(dat)))


def legacy(s, f, rng, dat, base, cols, kw, fname, mode, n):
    o = s["opt"]
    if o == "pH_range":
        if s["kw"]:
            kw["pH_range"] = (3.1, 3.7)
        if s["col"]:
            cols["pH_min"] = [2.9, None, 3.3]
            cols["pH_max"] = [None, None, 4.2]
        f.put("f.dat", text_of(rows_of(dat)))
    elif o == "read_dat_kwargs":
        if s["kw"]:
            kw["read_dat_kwargs"] = {"delimiter": ",", "skip_header": 3}
        if s["col"]:
            cols["delimiter"] = [None, ";", None]
        for i in range(3):
            fname[i] = f"f{i}.dat"
            sep = "," if s["kw"] else "\t"
            if s["col"] and i == 1:
                sep = ";"
            f.put(fname[i], text_of(rows_of(dat), header=("a", "b", "c") if s["kw"] else ("a", "b"), sep=sep))
    else:
        if s["kw"]:
            kw["read_dat_method"] = "pclims"
        if s["col"]:
            # in either spelling (a cell in the modern one wins over the kwarg as well)
            cols["file_type" if s.get("modern") else "read_dat_method"] = ["pclims", None, "genfromtxt"]
        rows = [[i, a, b, 0, 0, c] for i, (a, b, c) in enumerate(rows_of(dat))]
        f.put("f.dat", text_of(rows))


# ------------------------------------------------------------- C06 and C07
def index_for(kind, n, rng, off=0):
    if kind == "str":
        return [f"r{off + i}" for i in rng.permutation(n)]
    if kind == "shuffled":
        return [int(x) for x in off + 10 + rng.permutation(n)]
    if kind == "dup":
        return [int(x) for x in rng.integers(0, max(1, n - 1), n)]
    if kind == "float":
        return [float(x) + 0.5 for x in range(n)]
    if kind == "date":
        return pd.to_datetime(["2021-03-%02d" % (1 + off + i) for i in rng.permutation(n)])
    if kind == "multi":
        return pd.MultiIndex.from_tuples([("s%d" % (i % 2), int(i)) for i in rng.permutation(n)])
    return range(n)


def faulty(k, fault, row, f, op):
    """Overlay a fault on row k's cells."""
    name = row["file_name"]
    if fault == "missing":
        row["file_name"] = "none.dat"
    elif fault == "nofile":
        row["file_name"] = None
    elif fault == "directory":
        os.makedirs("adir", exist_ok=True)
        row["file_name"] = "adir"
    elif fault == "empty":
        f.put(name, "")
    elif fault == "header_only":
        f.put(name, "a\nb\n")
    elif fault == "garbage":
        f.put(name, "".join("no data here at all\n" for _ in range(8)))
    elif fault == "short":
        f.put(name, "a\nb\n" + "".join(f"{i * 0.2}\t{6 - i * 0.3}\n" for i in range(10)))
    elif fault == "ragged":
        f.put(name, "a\nb\n" + "".join(f"{i * 0.2}\t{6 - i * 0.3}" + ("\t25.0" if i % 3 else "") + "\n" for i in range(10)))
    elif fault == "binary":
        f.put(name, "".join(chr(x) for x in range(1, 32) if x not in (9, 10, 11, 12, 13, 28, 29, 30)) * 6)
    elif fault == "flagged":
        row["file_good"] = False
    elif fault == "unit":
        row["titrant_amount_unit"] = "oz"
    elif fault == "titrant":
        row["titrant"], row["titrant_amount_unit"], row["titrant_density"] = "HNO3", "ml", None
    elif fault == "mode":
        row["solve_mode"] = "alkalinity"
    elif fault == "nowindow":
        row["pH_min"], row["pH_max"] = 0.5, 0.9
    elif fault == "noanalyte":
        row["analyte_mass"] = row["analyte_volume"] = NAN
    elif fault == "reader":
        row["file_type"] = "pclims"
    elif fault == "nomolinity":
        if op == "solve":
            row["titrant_molinity"] = NAN
        else:
            row["alkalinity_certified"], row["analysis_batch"] = NAN, 99


def to_dataset(rows, index, rng=None):
    keys = []
    for r in rows:
        keys += [k for k in r if k not in keys]
    if rng is not None:
        rng.shuffle(keys)
    return calk.Dataset(pd.DataFrame({k: [r.get(k) for r in rows] for k in keys}, index=index))


def c06(s, d):
    rng = rng_for(s)
    f = Files(d)
    mode, op, n = s["mode"], s["op"], len(s["faults"])
    rows = []
    for k in range(n):
        r = {"file_name": f"f{k}.dat", "salinity": float(np.round(rng.uniform(30, 36), 2)), "analyte_mass": 0.1, "analyte_volume": NAN,
             "titrant_amount_unit": "g", "dic": float(np.round(rng.uniform(1700, 2100), 1)), "note": f"user {k}"}
        dat = titration_data(rng, "emf" if mode == "emf" else "pH", n=12 if mode != "emf" else 16)
        f.put(r["file_name"], text_of(rows_of(dat)))
        if mode != "emf":
            r["solve_mode"] = mode
        # each row has its own options, the others' cells are null
        if rng.random() < 0.25:
            r["analyte_mass"], r["analyte_volume"] = NAN, 98.0
        if rng.random() < 0.25:
            r["titrant_amount_unit"] = ["ml", None, "ML", "G"][rng.integers(4)]
        if rng.random() < 0.2:
            r["read_dat_method"] = "vindta"
            f.put(r["file_name"], text_of(rows_of(dat), header=("a", "b", "c")))
            r["skip_header"] = 3
        for o, v in (("pH_max", 4.2), ("pH_min", 2.9), ("titrant_density", 1.0), ("temperature_override", 21.5), ("total_phosphate", 40.0),
                     ("total_silicate", 60.0), ("titrant_normality", 1.03), ("opt_total_borate", 2), ("total_sulfate", 26000.0),
                     ("total_fluoride", 90.0), ("total_borate", 500.0), ("k_bisulfate", 0.09), ("opt_k_bisulfate", 2), ("opt_k_fluoride", 2),
                     ("opt_k_carbonic", 4), ("dilute_totals_for_ks", True), ("titrant_total_sulfate", 0.5), ("titrant_total_fluoride", 0.02),
                     ("titrant_total_phosphate", 0.02), ("double", False), ("gran_logic", "legacy"), ("k_water", 3e-14), ("molinity_HCl", 0.2),
                     ("file_path", "")):
            if rng.random() < 0.13:
                r[o] = v
        if op == "solve":
            r["titrant_molinity"] = float(rng.uniform(0.098, 0.102))
        else:
            r["alkalinity_certified"] = float(np.round(dat["alk"] + rng.uniform(-15, 15), 2))
            r["analysis_batch"] = int(rng.integers(2))
            if rng.random() < 0.25:
                r["reference_good"] = False
        rows.append(r)
    if op != "solve":
        if any("reference_good" in r for r in rows):
            for r in rows:
                r.setdefault("reference_good", True)
    for k, x in enumerate(s["faults"]):
        if x != "good":
            faulty(k, x, rows[k], f, op)
    if any("file_good" in r for r in rows):
        for r in rows:
            r.setdefault("file_good", True)
        as01 = rng.random() < 0.35     # flags as 0 and 1
        for r in rows:
            r["file_good"] = int(r["file_good"]) if as01 else r["file_good"]
    cols = sorted({k for r in rows for k in r})
    rows = [{k: r.get(k) for k in cols} for r in rows]
    ds = to_dataset(rows, None, rng)
    kw = {"pH_max": 4.1} if rng.random() < 0.4 else {}
    if s["kind"] != "known" and int(s["id"]) % 3 == 0:
        kw["verbose"] = True
    rec = Recorder(f)
    rec.step(ds, op, kw)
    # the same rows in another arrangement
    order = list(range(n))
    t = s["trans"]
    if s["kind"] == "known":
        order = [1, 0]
    elif t in ("permute", "reindex"):
        order = [int(i) for i in rng.permutation(n)]
    elif t in ("subset", "alone"):
        if op == "solve":
            order = [int(rng.integers(n))] if t == "alone" else sorted(int(i) for i in rng.choice(n, max(1, n - 1), replace=False))
        else:
            b = rows[int(rng.integers(n))].get("analysis_batch")
            order = [i for i in range(n) if rows[i].get("analysis_batch") == b]
    elif t == "twice":
        order = [i for i in range(n) for _ in range(2)]
    ds2 = to_dataset([dict(rows[i]) for i in order], index_for(s["index"], len(order), rng), rng)
    rec.step(ds2, op, kw)
    return rec.event(map=[i + 1 for i in order], **({"case": "emf-zero-window"} if s["kind"] == "known" else {}))


_cheap = {}


def cheap_files(f, mode):
    """A few fixed titrations (per mode), so that batches are cheap."""
    if mode not in _cheap:
        g = np.random.default_rng([7, len(mode)])
        _cheap[mode] = [titration_data(g, "emf" if mode == "emf" else "pH", n=10 if mode != "emf" else 16, t=22.0) for _ in range(7)]
    for k, dat in enumerate(_cheap[mode]):
        f.put(f"f{k}.dat", text_of(rows_of(dat)))
    return _cheap[mode]


def c07(s, d):
    rng = rng_for(s)
    f = Files(d)
    mode, op = s["mode"], s["op"]
    dats = cheap_files(f, mode)
    label = {"int": {"A": 7, "B": 3, "": None}, "str": {"A": "B10", "B": "B2", "": None}, "float": {"A": 1.5, "B": 1.25, "": NAN},
             "mixed": {"A": "1", "B": 2, "": None}, "date": {"A": "2021-01-02", "B": "2021-01-01", "": None}}[s["label"]]
    rows = []
    # references that agree with each other, or not at all
    wide = mode in ("pH", "pH_gran") and rng.random() < 0.35
    certs = [float(np.round(dat["alk"] * rng.uniform(0.4, 1.9) if wide else dat["alk"] + rng.uniform(-30, 30), 2)) for dat in dats]
    as01 = rng.random() < 0.2
    for k, x in enumerate(s["rows"]):
        t = k
        while s["twin"][t] != t + 1:
            t = s["twin"][t] - 1
        r = {"file_name": f"f{t}.dat" if x["file"] == "ok" or s["goodcol"] else "gone.dat", "salinity": 33.0, "analyte_mass": 0.1,
             "titrant_amount_unit": "g", "dic": 1900.0,
             "alkalinity_certified": certs[t] if x["cert"] else NAN}
        if mode != "emf":
            r["solve_mode"] = mode
        if s["goodcol"]:
            r["file_good"] = (x["file"] == "ok") if not as01 else int(x["file"] == "ok")
        if s["batchcol"]:
            r["analysis_batch"] = label[x["b"]]
        if s["refcol"] == "present" or (s["refcol"] == "nullok" and x["cert"]):
            r["reference_good"] = x["ref"]
        elif s["refcol"] == "nullok":
            r["reference_good"] = None
        rows.append(r)
    if rng.random() < 0.25:             # molinities of an earlier calibration, some by hand
        for r in rows:
            r["titrant_molinity"] = float(np.round(rng.uniform(0.09, 0.11), 5)) if rng.random() < 0.8 else NAN
    if rng.random() < 0.2:              # flags as they come out of a spreadsheet
        for r in rows:
            if not isnull(r.get("reference_good")):
                r["reference_good"] = float(r["reference_good"])
    ds = to_dataset(rows, index_for(["default", "str", "dup"][int(rng.integers(3))], len(rows), rng), rng)
    rec = Recorder(f)
    rec.step(ds, op, {})
    batches = []
    if not rec.steps[-1]["err"]:
        b, err = call(dataset.get_batches, ds)
        if err:
            raise CodeError("get_batches: " + err)
        for lab in b.index:
            batches.append(dict(label=clean(lab), mean=clean(b["titrant_molinity"][lab]), std=clean(b["titrant_molinity__std"][lab]),
                                count=clean(b["titrant_molinity__count"][lab])))
    return rec.event(batches=batches)


# ------------------------------------------------------------------- C08
NAMES = {"fg": "file_good", "ref": "reference_good", "batch": "analysis_batch", "so4": "total_sulfate", "bor": "total_borate",
         "otb": "opt_total_borate", "win": "pH_max", "mol": "titrant_molinity", "file": "file_name", "sal": "salinity",
         "cert": "alkalinity_certified", "am": "analyte_mass", "vol": "analyte_volume", "tov": "temperature_override", "dic": "dic"}


def c08(s, d):
    rng = rng_for(s)
    f = Files(d)
    kind = "emf" if s["mode"] == "emf" else "pH"
    npts = 16 if kind == "emf" else 12
    content = {k: titration_data(rng, kind, n=npts) for k in ("v1", "w1", "v2", "w2")}
    disk = {"A": "v1", "B": "w1"}
    for k in "AB":
        f.put(k + ".dat", text_of(rows_of(content[disk[k]])))
    alk = content["v1"]["alk"]
    value = {
        "file": {"A": "A.dat", "B": "B.dat", "G": "gone.dat"}, "sal": {"s1": 33.0, "s2": 31.5},
        "cert": {"c1": float(np.round(alk, 2)), "c2": float(np.round(alk * 1.01, 2))}, "fg": {"T": True, "F": False}, "ref": {"T": True, "F": False},
        "batch": {"0": 0, "1": 1}, "so4": {"u": 25500.0, "z": 0.0}, "bor": {"u": 400.0, "z": 0.0}, "otb": {"1": 1, "2": 2}, "win": {"u": 4.3},
        "mol": {"m1": 0.1, "m2": 0.1013}, "am": {"a1": 0.1, "a2": 0.1002}, "vol": {"v1": 97.8, "v2": 98.3},
        "tov": {"t": 24.0}, "dic": {"d1": 1950.0, "d2": 1990.0}}
    val = lambda c, v: value[c].get(v)
    cols = ["file", "sal", "cert", "am", "vol", "tov", "dic"] + sorted(s["init"]["cols"])
    rng.shuffle(cols)
    data = {NAMES[c]: [val(c, r[c]) for r in s["init"]["rows"]] for c in cols}
    n = len(s["init"]["rows"])
    data.update(titrant_amount_unit=["g"] * n, note=[f"user {i}" for i in range(n)])
    if s["mode"] != "emf":
        data["solve_mode"] = [s["mode"]] * n
    ds = calk.Dataset(pd.DataFrame(data, index=index_for(["default", "str", "shuffled"][int(rng.integers(3))], n, rng)))
    rec = Recorder(f)
    looks = []
    for o in s["hist"]:
        op = o["op"]
        if op in ("solve", "calibrate", "calkulate"):
            kw = {}
            if o["kw"]["so4"] != "-":
                kw["total_sulfate"] = 24000.0
            if o["kw"]["otb"] != "-":
                kw["opt_total_borate"] = 2
            if o["kw"]["win"] != "-":
                kw["pH_max"] = 4.15
            fn = None if s["api"] == "method" else (lambda: getattr(dataset, op)(ds, **kw))
            rec.step(ds, op, kw, fn, snapshot=True)
        elif op == "set":
            c = NAMES[o["col"]]
            v = list(ds[c]) if c in ds else [None] * n
            v[o["i"] - 1] = val(o["col"], o["val"])
            ds[c] = v
        elif op == "drop":
            del ds[NAMES[o["col"]]]
        elif op == "disk":
            p = o["col"] + ".dat"
            if o["val"] == "gone":
                if p in f.text:
                    os.remove(os.path.join(d, p))
                    del f.text[p], f.enc[p]
            else:
                f.put(p, text_of(rows_of(content["v2"])))
        elif op == "reverse":
            ds = calk.Dataset(ds.iloc[::-1])
        elif op == "look":
            b = table(ds)
            call(lambda: ds.to_Titration(ds.index[0]))
            call(lambda: dataset.get_batches(ds))
            call(lambda: (repr(ds), ds.to_pandas()))
            looks.append(bool(repr(table(ds)) == repr(b)))
    return rec.event(looks=looks)
