"""Titration objects made from dataset rows, with and without overriding kwargs."""

import copy
import pickle
import warnings

import numpy as np
import pandas as pd

from drv_table import Files, Recorder, clean, index_for, isnull, parse, resolve, rows_of, table, text_of
from drvlib import CodeError, call, calk, concretise, must, pyco2, rng_for

NAN = float("nan")


def make_rows(s, f, rng):
    """Rows of the dataset: cells, data and the effective options of each."""
    rows, meta = [], []
    sub = {"none": [""], "null": [""], "column": ["sub/", "other"], "kwarg": ["sub"]}[s["path"]]
    for k, r in enumerate(s["rows"]):
        g = np.random.default_rng([int(rng.integers(1 << 30)), k])
        c, S, dat, env, truth = concretise(dict(r, npts=20), g)
        row = {"file_name": f"f{k}.dat", "salinity": S, "note": f"user {k}", **c}
        p = sub[k % len(sub)] if s["path"] == "column" else sub[0]
        if s["path"] == "column":
            row["file_path"] = p
        full = (p.rstrip("/") + "/" if p else "") + row["file_name"]
        f.put(full, text_of(rows_of(dat)))
        if s["how"] == "calibrated":
            row["alkalinity_certified"] = float(np.round(truth["alk"] * g.uniform(0.98, 1.02), 2))
            row["analysis_batch"] = k
        else:
            row["titrant_molinity"] = float(truth["m"] * g.uniform(0.98, 1.02))
            if g.random() < 0.5:
                row["alkalinity_certified"] = float(np.round(truth["alk"], 2))
        rows.append(row)
        meta.append(dict(c=c, S=S, dat=dat, truth=truth, prefix=full[: -len(row["file_name"])]))
    if s["path"] == "null":
        for r in rows:
            r["file_path"] = None
        if len(rows) > 1:
            rows[1]["file_path"] = "other"
            f.put("other/" + rows[1]["file_name"], text_of(rows_of(meta[1]["dat"])))
    cols = []
    for r in rows:
        cols += [k for k in r if k not in cols]
    if not any(k in cols for k in ("analyte_mass",)):
        pass
    return rows, cols, meta


def override(s, rng, row, meta, f):
    """kwargs for the Titration."""
    o, kw = s["over"], {}
    mode = str(row.get("solve_mode", "emf")).lower()
    mass = row.get("analyte_mass")
    if o in ("window", "several"):
        kw["pH_max"] = 4.3 if row.get("pH_max") != 4.3 else 4.1
        kw["pH_min"] = 3.05
    if o == "mode" and mode != "emf":
        kw["solve_mode"] = {"ph": "pH_gran", "ph_gran": "pH_adjust", "ph_adjust": "pH"}[mode]
    elif o == "mode":
        kw["double"] = False
    if o in ("normality", "several"):
        kw["titrant_normality"] = float(row.get("titrant_normality", 1)) * 1.07
    if o == "molinity":
        kw["titrant_molinity"] = float(meta["truth"]["m"] * 1.013)
    if o == "mass":
        kw["analyte_mass"] = float(meta["truth"].get("am", 0) or (mass if mass is not None and not isnull(mass) else row["analyte_volume"] * 1e-3)) * 1.02
    if o == "volume":
        kw["analyte_volume"] = float(row["analyte_volume"] if not isnull(row.get("analyte_volume")) else row["analyte_mass"] * 1e3) * 1.015
        if not isnull(row.get("analyte_mass")) and rng.random() < 0.5:
            kw["analyte_mass"] = NAN        # so that the volume counts
    if o == "unit":
        u = str(row.get("titrant_amount_unit", "ml")).lower()
        if u == "ml":
            kw["titrant_density"] = 1.037
        else:
            kw["titrant_amount_unit"] = u.upper()
    if o in ("total", "several"):
        kw["total_sulfate"] = float(rng.uniform(20000, 30000))
    if o == "dic":
        kw["dic"] = float(0.5 * meta["truth"]["alk"])
    if o == "constant":
        kw["k_bisulfate"] = 10**-1.05
        kw["k_borate"] = 10**-8.4
    if o == "opt_k":
        kw.update(opt_k_bisulfate=2, opt_k_carbonic=4)
    if o in ("solute", "several"):
        kw["titrant_total_sulfate"] = 0.7
    if o == "temperature":
        kw["temperature_override"] = 17.5
    if o == "pH_range":
        kw["pH_range"] = (3.02, 4.25)
    dat = meta["dat"]
    if o == "read_dat_method":
        kw["read_dat_method"] = "pclims"
        kw["file_name"] = "p.dat"
        f.put(meta["prefix"] + "p.dat", "report\nno.\tV\tU\tdt\tx\tT\n" + "".join(
            "\t".join(f"{v:.9f}" for v in (i, a, b, 0, 0, c)) + "\n" for i, (a, b, c) in enumerate(rows_of(dat))))
    if o == "read_dat_kwargs":
        kw["read_dat_kwargs"] = {"delimiter": ",", "skip_header": 3}
        kw["file_name"] = "q.dat"
        f.put(meta["prefix"] + "q.dat", text_of(rows_of(dat), header=("a", "b", "c"), sep=","))
    if o == "skip_header":
        kw["skip_header"] = 4       # the first two data points are left out
    if o == "file_name":
        kw["file_name"] = "z.dat"
        d2 = dict(dat, measurement=[x + 0.001 for x in dat["measurement"]])
        f.put(meta["prefix"] + "z.dat", text_of(rows_of(d2)))
    if o == "salinity":
        kw["salinity"] = float(np.round(row["salinity"] * 0.97, 2))
    if o == "double":
        kw["double"] = bool(row.get("double") is False)
    if o == "gran_logic":
        kw["gran_logic"] = "legacy"
    if o == "emf0_init" and mode == "emf":
        kw["emf0_init"] = float(meta["truth"]["emf0"] + 0.7)
    return kw


def build(s, d):
    """Dataset of the scenario, its recorder, the chosen row and kwargs."""
    rng = rng_for(s)
    f = Files(d)
    rows, cols, meta = make_rows(s, f, rng)
    pos = 0 if s["over"] != "none" or rng.random() < 0.5 else int(rng.integers(len(rows)))
    kw = override(s, rng, rows[pos], meta[pos], f)
    if s["path"] == "kwarg":
        kw["file_path"] = "sub"
    order = list(cols)
    rng.shuffle(order)
    df = pd.DataFrame({k: [r.get(k) for r in rows] for k in order}, index=index_for(s["index"], len(rows), rng))
    rec = Recorder(f)
    ds = calk.Dataset(df)
    if s["how"] != "fresh":
        rec.step(ds, "solve" if s["how"] == "solved" else "calkulate", {"file_path": "sub"} if s["path"] == "kwarg" else {})
        if rec.steps[-1]["err"]:
            raise CodeError(rec.steps[-1]["err"])
    return rng, f, rec, ds, pos, kw


def same_frame(a, b):
    return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and all(
        same(a[c].iloc[i], b[c].iloc[i]) for c in a.columns for i in range(len(a)))


def same(x, y):
    if isinstance(x, (list, tuple, np.ndarray)) or isinstance(y, (list, tuple, np.ndarray)):
        return repr(x) == repr(y)
    if isnull(x) or isnull(y):
        return isnull(x) and isnull(y)
    return type(x) is type(y) and x == y


def same_row(a, b):
    return list(a.index) == list(b.index) and all(same(a[k], b[k]) for k in a.index)


def cells(row):
    return {str(k): clean(row[k]) for k in row.index}


def column(v):
    a = v.to_numpy()
    if a.dtype == bool:
        return [bool(x) for x in a]
    return [float(x) for x in a]


def titration(s, ds, pos, kw):
    """The Titration by the scenario's route, and the row it came from."""
    ix = ds.index[pos]
    if isinstance(ix, np.integer):
        ix = int(ix)
    row = ds.loc[ix]
    frame = ds if s["via"] == "method" else pd.DataFrame(ds)
    if s["via"] == "class":
        return row, call(lambda: calk.Titration(row, **kw))
    if s["via"] == "function":
        return row, call(lambda: calk.to_Titration(frame, ix, **kw))
    return row, call(lambda: frame.to_Titration(ix, **kw))


def environment(rec, row, kw, dat=None):
    """Effective options of a Titration and where PyCO2SYS's answers are."""
    k = dict(kw)
    k.update(kw.get("read_dat_kwargs", {}))
    if "pH_range" in k:
        k["pH_min"], k["pH_max"] = k["pH_range"]
    if "read_dat_method" in k:
        k["file_type"] = k["read_dat_method"]
    rw = {**cells(row), **{a: clean(b) for a, b in k.items()}}
    c = resolve(rw, {})
    path = rw["file_name"]
    if "file_path" in c:
        path = c["file_path"].rstrip("/") + "/" + path if c["file_path"] else path
    for p in rec.files.text:
        if p.replace("//", "/") == path:
            at = parse(rec.files.text[p], c)
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                return rw, c, rec.env(c, float(rw["salinity"]), at), at
    return rw, c, 0, None


def c15(s, d):
    rng, f, rec, ds, pos, kw = build(s, d)
    if s["how"] == "fresh" and rng.random() < 0.3:
        ds = calk.Dataset(pd.DataFrame(ds))
    before, saved = ds.copy(), repr(kw)
    row, (tt, err) = titration(s, ds, pos, kw)
    rw, c, ref, at = environment(rec, before.iloc[pos], kw)
    x = dict(pos=pos + 1, row=cells(before.iloc[pos]), kw=kw, eff=c, envref=ref, err=err)
    if not err:
        t = tt.titration
        temp = np.full(len(at[1]), float(c["temperature_override"])) if "temperature_override" in c else at[1]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x["kco2"] = [float(v) for v in np.broadcast_to(pyco2.sys(salinity=float(rw["salinity"]), temperature=temp)["k_CO2"], temp.shape)]
        x["res"] = cells(tt.row)
        x["tab"] = {str(k): column(t[k]) for k in t.columns if t[k].dtype.kind in "bfi"}
        own = {"row", "kwargs", "sr", "t", "titration"}
        x["attrs"] = bool(all(same(clean(getattr(tt, k)), clean(tt.row[k])) for k in tt.row.index if str(k).isidentifier() and k not in own))
        x["items"] = bool(all(same(clean(tt[k]), clean(tt.row[k])) for k in tt.row.index))
        x["missing"] = bool(not hasattr(tt, "no_such_attribute"))
        x["str"] = call(lambda: rw["file_name"] in str(tt))[0] is True
        x["repr"] = call(lambda: rw["file_name"] in repr(tt))[0] is True
        x["copy"] = duplicate(tt, copy.copy) and duplicate(tt, copy.deepcopy)
        x["pickle"] = duplicate(tt, lambda q: pickle.loads(pickle.dumps(q)))
        x["tsame"] = bool(tt.t is tt.titration)
    x["dskept"] = bool(same_frame(ds, before))
    x["rowkept"] = bool(same_row(row, before.iloc[pos]))
    x["kwkept"] = bool(repr(kw) == saved)
    x["fileskept"] = f.kept()
    return rec.event(x=x)


def duplicate(tt, fn):
    v, err = call(fn, tt)
    if err:
        return False
    return call(lambda: same_row(v.row, tt.row) and same_frame(v.titration, tt.titration))[0] is True
