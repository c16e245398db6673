"""Single titrations: calibrate and solve through files, core and Dataset."""

import os

import numpy as np
import pandas as pd

from drvlib import (KNAMES, call, cal_out, calk, concretise, convert, core, dataset, density, env_for, files, mask, must,
                    num, readt, rng_for, solve_out, vec, write_file)

CORE_SOLVE = {"emf": "solve_emf", "ph_adjust": "solve_emf", "ph": "solve_pH", "ph_gran": "solve_pH_gran"}


def split_core(c, S, path):
    """The documented chain: read_dat, amount_units, totals_ks."""
    dd = calk.read_dat(path)
    cau = {k: v for k, v in c.items() if k in (
        "analyte_mass", "analyte_volume", "molinity_H2SO4", "molinity_HCl", "molinity_NaCl",
        "temperature_override", "titrant_amount_unit", "titrant_density", "titrant")}
    cv = convert.amount_units(dd, S, **cau)
    tk = {k: v for k, v in c.items() if (k.startswith(("total_", "k_", "opt_")) or k in ("dic", "dilute_totals_for_ks"))}
    totals, ks = core.totals_ks(cv, **tk)
    return cv, totals, ks


def core_args(c, cal=False):
    mode = str(c.get("solve_mode", "emf")).lower()
    kw = {k: c[k] for k in ("pH_min", "pH_max", "titrant_normality") if k in c}
    if mode in ("emf", "ph_adjust"):
        kw.update({k: c[k] for k in ("double", "alkalinity_init", "emf0_init", "gran_logic") if k in c})
    add = {k: v for k, v in c.items() if k.startswith("titrant_total_")}
    return mode, kw, add


def core_solve(c, S, path, m):
    cv, totals, ks = split_core(c, S, path)
    mode, kw, add = core_args(c)
    totals = core.add_titrant_totals(totals, cv.titrant_mass, cv.analyte_mass, m, **add)
    meas = cv.measurement
    if mode == "ph_adjust":
        kw["emf0_init"] = 0
        meas = convert.pH_to_emf(meas, 0, cv.temperature)
    fn = getattr(core, CORE_SOLVE[mode])
    return fn(m, cv.titrant_mass, meas, cv.temperature, cv.analyte_mass, totals, ks, **kw)


def core_calibrate(c, S, path, cert):
    cv, totals, ks = split_core(c, S, path)
    mode, kw, add = core_args(c)
    meas = cv.measurement
    if mode == "ph_adjust":
        kw["emf0_init"] = 0
        meas = convert.pH_to_emf(meas, 0, cv.temperature)
    fn = getattr(core, CORE_SOLVE[mode].replace("solve", "calibrate"))
    return fn(cert, cv.titrant_mass, meas, cv.temperature, cv.analyte_mass, totals, ks, **kw, **add)


def one_row(c, S, d, **cols):
    row = {"file_name": ["t.dat"], "file_path": [d + os.sep], "salinity": [S]}
    row.update({k: [v] for k, v in cols.items()})
    row.update({k: [v] for k, v in c.items()})
    return calk.Dataset(pd.DataFrame(row))


def ds_out(ds, err):
    if err:
        return {"err": err, "offset": float("nan"), "m": float("nan"), "alk": float("nan"), "std": float("nan"),
                "npts": -1, "pH_init": float("nan"), "emf0": float("nan")}
    r = ds.iloc[0]
    return {"err": "", "offset": num(r.get("alkalinity_offset")), "m": num(r.get("titrant_molinity")),
            "alk": num(r["alkalinity"]), "std": num(r["alkalinity_std"]), "npts": int(r["alkalinity_npts"]),
            "pH_init": num(r["pH_init"]), "emf0": num(r["emf0"])}


NAN = float("nan")


def prepare(s, d, salt=0):
    rng = rng_for(s, salt)
    c, S, dat, env, truth = concretise(s, rng)
    path = os.path.join(d, "t.dat")
    write_file(path, dat["amount"], dat["measurement"], dat["temperature"])
    return rng, c, S, dat, env, truth, path


def core_out(c, S, path, m):
    sr, err = call(core_solve, c, S, path, m)
    return {"err": err, "alk": NAN if err else num(sr.alkalinity)}


def c01(s, d):
    rng, c, S, dat, env, truth, path = prepare(s, d)
    # certified value a little different from the true one
    cert = float(truth["alk"] * rng.uniform(0.96, 1.04))
    ev = dict(c=c, S=S, dat=dat, env=env, cert=cert)
    ev["cal"] = cal_out(*call(files.calibrate, path, cert, S, **c))
    ev["sol"] = solve_out(*call(files.solve, path, ev["cal"]["m"], S, **c))
    o = cal_out(*call(core_calibrate, c, S, path, cert))
    r = core_out(c, S, path, o["m"])
    ev["core"] = {"err": o["err"] or r["err"], "m": o["m"], "alk": r["alk"]}
    ev["ds"] = ds_out(*call(lambda: one_row(c, S, d, alkalinity_certified=cert).calkulate()))
    return ev


def c02(s, d):
    rng, c, S, dat, env, truth, path = prepare(s, d)
    ev = dict(c=c, S=S, dat=dat, env=env, truth=truth)
    ev["sol"] = solve_out(*call(files.solve, path, truth["m"], S, **c))
    ev["cal"] = cal_out(*call(files.calibrate, path, truth["alk"], S, **c))
    ev["ds"] = ds_out(*call(lambda: one_row(c, S, d, titrant_molinity=truth["m"]).solve()))
    return ev


def c04(s, d):
    rng, c, S, dat, env, truth, path = prepare(s, d)
    kind = s["kind"]
    m = float(truth["m"] * rng.uniform(0.97, 1.03))
    ev = {}
    if kind in ("edge_lo", "edge_hi", "edge_both", "inside", "outside"):
        # the window's edges are exactly measured values, or one ulp beside them
        x = dat["measurement"]
        lo = x[int(np.argmin(np.abs(np.array(x) - 3.05)))]
        hi = x[int(np.argmin(np.abs(np.array(x) - 4.0)))]
        if kind == "edge_lo":
            hi = 3.97654321
        if kind == "edge_hi":
            lo = 3.01234567
        if kind == "inside":
            lo, hi = np.nextafter(lo, 9), np.nextafter(hi, 0)
        if kind == "outside":
            lo, hi = np.nextafter(lo, 0), np.nextafter(hi, 9)
        c["pH_min"], c["pH_max"] = float(lo), float(hi)
    elif kind.startswith("few"):
        # a window holding exactly k of the points
        k = int(kind[3:])
        x = np.array(truth["pH"] if s["mode"] == "emf" or (s["mode"] == "pH_adjust" and k > 1) else dat["measurement"])
        i = int(np.argmin(np.abs(x - rng.uniform(3.2, 3.7))))
        i = min(max(i, 1), len(x) - k - 1)
        hi, lo = (x[i - 1] + x[i]) / 2, (x[i + k - 1] + x[i + k]) / 2
        c["pH_min"], c["pH_max"] = float(lo), float(hi)
        if k == 1 and s["mode"] in ("emf", "pH_adjust"):
            # one point cannot decide two unknowns, but which point it is is decided
            c["emf0_init"] = truth["emf0"]
            ev["nofit"] = True
    elif kind.startswith("emf_edge"):
        # emf0_init equal to one of the EMFs: that point's pH is exactly 0
        i = int(rng.integers(len(dat["measurement"]) // 2, len(dat["measurement"]) - 3))
        c["emf0_init"] = dat["measurement"][i]
        c["double"] = False
        c["pH_min"], c["pH_max"] = (0.0, 9.0) if kind == "emf_edge_lo" else (-9.0, 0.0)
        ev["nofit"] = True
    ev.update(c=c, S=S, dat=dat, env=env, m=m)
    ev["sol"] = solve_out(*call(files.solve, path, m, S, **c))
    ev["core"] = core_out(c, S, path, m)
    ev["ds"] = ds_out(*call(lambda: one_row(c, S, d, titrant_molinity=m).solve()))
    return ev


CAU = ("analyte_mass", "analyte_volume", "molinity_H2SO4", "molinity_HCl", "molinity_NaCl", "temperature_override",
       "titrant_amount_unit", "titrant_density", "titrant")


def conv_out(cv, err):
    if err:
        return {"err": err}
    n = len(np.asarray(cv.measurement))
    return {"err": "", "tm": vec(cv.titrant_mass, n), "meas": vec(cv.measurement, n), "temp": vec(cv.temperature, n),
            "am": num(cv.analyte_mass)}


def c09(s, d):
    rng = rng_for(s)
    if s["kind"] == "density":
        w = s["which"]
        if w == "sw":
            t, S = rng.uniform(0, 40, 6), rng.uniform(0.6, 42.9, 6)
            if s["k"] % 2:
                S = np.full(6, S[0])
            got = must(density.seawater_1atm_MP81, t, S)
            one = must(density.seawater_1atm_MP81, float(t[0]), float(S[0]))
            return dict(which=w, x=vec(t), y=vec(S), got=vec(got, 6), one=num(one))
        if w == "hcl":
            a, b = rng.uniform(0.01, 1, 6), rng.uniform(0, 1, 6)
            a[0] = b[1] = 0.0
            got = [num(must(density.HCl_NaCl_25C_DSC07, molinity_HCl=float(x), molinity_NaCl=float(y))) for x, y in zip(a, b)]
            return dict(which=w, x=vec(a), y=vec(b), got=got, one=num(must(density.HCl_NaCl_25C_DSC07)))
        a = rng.uniform(0.01, 1, 6)
        got = [num(must(density.H2SO4_25C_EAIM, float(x))) for x in a]
        return dict(which=w, x=vec(a), y=vec(a), got=got, one=num(must(density.H2SO4_25C_EAIM, 0.1)))
    if s["kind"] == "run":
        rng, c, S, dat, env, truth, path = prepare(s, d)
        sr, err = call(files.solve, path, truth["m"], S, **c)
        o = {"err": err}
        if not err:
            n = len(dat["amount"])
            o.update(tm=vec(sr.titrant_mass, n), temp=vec(sr.temperature, n), am=num(sr.analyte_mass), meas=dat["measurement"])
        dd = must(calk.read_dat, path)
        cv = conv_out(*call(convert.amount_units, dd, S, **{k: v for k, v in c.items() if k in CAU}))
        return dict(c=c, S=S, dat=dat, conv=cv, sol=o, checkmeas=True)
    n = 6
    c = {}
    u = s["unit"]
    if u != "none":
        c["titrant_amount_unit"] = u
    if s["dens"] == "given":
        c["titrant_density"] = float(rng.uniform(0.9, 1.2))
    if s["titrant"] != "none":
        c["titrant"] = s["titrant"]
    if s["mol"] != "default":
        if s["mol"] == "both" or s["titrant"].upper() == "H2SO4":
            c["molinity_H2SO4"] = float(rng.uniform(0.05, 0.7))
        if s["mol"] == "both" or s["titrant"].upper() != "H2SO4":
            c["molinity_HCl"] = float(rng.uniform(0.05, 0.7))
            c["molinity_NaCl"] = float(rng.uniform(0.0, 0.9)) if rng.random() < 0.7 else 0.0
    a = s["analyte"]
    if a in ("mass", "both"):
        c["analyte_mass"] = float(rng.uniform(0.01, 0.9))
    if a in ("volume", "both", "nanmass"):
        c["analyte_volume"] = float(rng.uniform(10, 900))
    S = float(rng.uniform(1, 42)) if rng.random() < 0.7 else [0.0, 0.2, 0.0, 44.5, 60.0, 35][int(rng.integers(6))]
    amount = np.sort(rng.uniform(0, 5, n))
    if rng.random() < 0.2:      # any order, a burette that starts below zero
        rng.shuffle(amount)
        amount[int(rng.integers(n))] *= -0.01
    if s["tint"]:
        amount = np.arange(n, dtype=int)
    meas = rng.uniform(100, 600, n)
    t = rng.uniform(2, 35, n) if s["temp"] != "const" else np.full(n, rng.uniform(2, 35))
    if s["temp"] == "override":
        c["temperature_override"] = float(np.round(rng.uniform(2, 35), 1))
        if rng.random() < 0.2:
            c["temperature_override"] = float(rng.integers(-1, 1))
    if s["tint"]:
        t = np.round(t).astype(int)
    DatData = type(must(calk.read_dat, _tiny(d)))
    keep = [np.array(x) for x in (amount, meas, t)]
    dd = DatData(amount, meas, t)
    kw = dict(c)
    if a == "nanmass":
        kw["analyte_mass"] = NAN
    cv = conv_out(*call(convert.amount_units, dd, S, **kw))
    dat = dict(amount=vec(amount), measurement=vec(meas), temperature=vec(t))
    same = all(np.array_equal(x, y) for x, y in zip(keep, (dd.titrant_amount, dd.measurement, dd.temperature)))
    return dict(c=c, S=S, dat=dat, conv=cv, inputs_kept=bool(same))


def _tiny(d):
    p = os.path.join(d, "tiny.dat")
    if not os.path.exists(p):
        write_file(p, [0, 1, 2], [1, 2, 3], [4, 5, 6])
    return p


ZERO = {"po4": "total_phosphate", "si": "total_silicate", "nh3": "total_ammonia", "h2s": "total_sulfide",
        "alpha": "total_alpha", "beta": "total_beta", "dic": "dic", "borate": "total_borate", "fluoride": "total_fluoride",
        "sulfate": "total_sulfate"}


def tk_out(t, k, n):
    return {"err": "", "totals": {x: vec(v, n) for x, v in t.items()}, "ks": {x: vec(v, n) for x, v in k.items()}}


def c10(s, d):
    rng, c, S, dat, env, truth, path = prepare(s, d)
    n = len(dat["amount"])
    if "zero" in s:
        c[ZERO[s["zero"]]] = 0.0
        env = reenv(c, S, dat)
    if "scale" in s:
        c["opt_pH_scale"] = s["scale"]
        env = reenv(c, S, dat, s["scale"])
    ev = dict(c=c, S=S, dat=dat, env=env, zero=0)
    r, err = call(split_core, c, S, path)
    ev["tk"] = {"err": err} if err else tk_out(r[1], r[2], n)
    # the totals and constants that solving used (no titrant-borne solutes here)
    cc = {k: v for k, v in c.items() if not k.startswith("titrant_total_")}
    ev["sol"] = {"err": "skipped"}
    if c.get("opt_pH_scale", 3) == 3:
        sr, err = call(files.solve, path, truth["m"], S, **cc)
        ev["sol"] = {"err": err} if err else tk_out(sr.totals, sr.k_constants, n)
    # dataset level: materialised salts
    ds, err = call(lambda: one_row(cc, S, d, titrant_molinity=truth["m"]).solve())
    ev["ds"] = {"err": err}
    if not err:
        ev["ds"].update({k: num(ds.iloc[0][k]) for k in ("total_borate", "total_fluoride", "total_sulfate")})
    return ev


def reenv(c, S, dat, scale=3):
    from drvlib import rho_sw, unit_factor
    t = np.array(dat["temperature"])
    if "temperature_override" in c:
        t = np.full(len(t), c["temperature_override"])
    am = c.get("analyte_mass")
    if am is None:
        am = c["analyte_volume"] * rho_sw(t[0], S) * 1e-3
    tm = np.array(dat["amount"]) * unit_factor(c)
    return env_for(c, S, t, am / (tm + am), scale)


def c11(s, d):
    rng = rng_for(s)
    if s["kind"] == "helper":
        n = 5
        tm = np.sort(rng.uniform(0, 0.01, n))
        am = float(rng.uniform(0.02, 0.3))
        m = float(rng.uniform(0.05, 0.5))
        w = s["which"]
        if w in ("add", "readd"):
            totals = {"dic": rng.uniform(1e-3, 3e-3, n), "total_sulfate": rng.uniform(0.01, 0.03, n)}
            if s["k"] % 2:
                totals["total_phosphate"] = rng.uniform(1e-6, 1e-5, n)
            if s["k"] % 3 == 0:
                totals["total_fluoride"] = rng.uniform(1e-5, 1e-4, n)
            base = {k: vec(v) for k, v in totals.items()}
            adds = {k: float(rng.uniform(0.1, 2)) for k in ("sulfate", "phosphate", "fluoride") if rng.random() < 0.7}
            kw = {"titrant_total_" + k: v for k, v in adds.items()}
            # a first molinity (a calibration's guess), then replaced by m
            m0 = 0.0
            if w == "readd":
                m0 = float(rng.uniform(0.05, 0.5))
                totals = must(core.add_titrant_totals, totals, tm, am, m0, **kw)
            got = must(core.add_titrant_totals, totals, tm, am, m, titrant_molinity_prev=m0, **kw)
            return dict(which="add", base=base, adds={"total_" + k: v for k, v in adds.items()}, tm=vec(tm), am=am, m=m,
                        got={k: vec(v, n) for k, v in got.items()})
        if w == "h2so4":
            base = {"dic": 2e-3, "total_sulfate": float(rng.uniform(0.01, 0.03)), "total_borate": 4e-4}
            fn, args = convert.dilute_totals_H2SO4, (m, tm, am)
        elif w == "plain":
            base = {"dic": 2e-3, "total_sulfate": float(rng.uniform(0.01, 0.03)), "total_borate": 4e-4}
            fn, args = convert.dilute_totals, (tm, am)
        else:
            base = {k: float(rng.uniform(1e-4, 1e-2)) for k in ("TB", "TF", "TCa", "TSO4", "alpha", "beta", "TPO4", "TSi", "TNH3", "TH2S")}
            base["Sal"] = 33.5
            fn, args = (convert.dilute_totals_pyco2_H2SO4, (m, tm, am)) if w == "pyco2" else (convert.dilute_totals_pyco2, (tm, am))
        keep = dict(base)
        got = must(fn, base, *args)
        return dict(which=w, base=keep, kept=bool(base == keep), tm=vec(tm), am=am, m=m,
                    got={k: vec(v, n) for k, v in got.items()})
    rng, c, S, dat, env, truth, path = prepare(s, d)
    m = float(truth["m"] * rng.uniform(0.97, 1.03))
    cert = float(truth["alk"] * rng.uniform(0.98, 1.02))
    n = len(dat["amount"])
    ev = dict(c=c, S=S, dat=dat, env=env, m=m, cert=cert, which="run")
    sr, err = call(files.solve, path, m, S, **c)
    ev["sol"] = solve_out(sr, err)
    # calibration does not touch the caller's totals, and repeats do not accumulate
    r, err = call(split_core, c, S, path)
    ev["cal"] = {"err": err, "m1": NAN, "m2": NAN}
    if not err:
        cv, totals, ks = r
        keep = {k: np.array(v, copy=True) for k, v in totals.items()}
        mode, kw, add = core_args(c)
        meas = cv.measurement
        if mode == "ph_adjust":
            kw["emf0_init"] = 0
            meas = convert.pH_to_emf(meas, 0, cv.temperature)
        fn = getattr(core, CORE_SOLVE[mode].replace("solve", "calibrate"))
        a = cal_out(*call(fn, cert, cv.titrant_mass, meas, cv.temperature, cv.analyte_mass, totals, ks, **kw, **add))
        b = cal_out(*call(fn, cert, cv.titrant_mass, meas, cv.temperature, cv.analyte_mass, totals, ks, **kw, **add))
        ev["cal"] = {"err": a["err"] or b["err"], "before": {k: vec(v, n) for k, v in keep.items()},
                     "after": {k: vec(v, n) for k, v in totals.items()}, "m1": a["m"], "m2": b["m"]}
        # nor when it cannot be finished: measurements missing, a window without points
        if mode in ("emf", "ph_adjust"):
            bad = dict(kw, pH_min=9.0, pH_max=8.5)
            x, xerr = call(fn, cert, cv.titrant_mass, meas, cv.temperature, cv.analyte_mass, totals, ks, **bad, **add)
        else:
            x, xerr = call(fn, cert, cv.titrant_mass, meas, cv.temperature, cv.analyte_mass, totals, {}, **kw, **add)
        ev["cal"]["interrupted"] = bool(xerr)
        ev["cal"]["after2"] = {k: vec(v, n) for k, v in totals.items()}
    return ev


def c18(s, d):
    rng, c, S, dat, env, truth, path = prepare(s, d)
    y = np.array(dat["measurement"])
    n = len(y)
    if s["mode"] == "emf" and s["shape"] != "plain":
        # odd shapes: titrations that start late, spikes and dips
        if s["shape"] == "late":
            k = n // 2
            for f in ("amount", "temperature"):
                dat[f] = dat[f][k:]
            y = y[k:]
            env["k"] = {q: v[k:] for q, v in env["k"].items()}
        elif s["shape"] == "few":       # ends soon after the inflection: two or three points to fit
            k = min(n, int(np.argmax(np.diff(y))) + int(rng.integers(2, 5)))
            for f in ("amount", "temperature"):
                dat[f] = dat[f][:k]
            y = y[:k]
            env["k"] = {q: v[:k] for q, v in env["k"].items()}
        else:
            i = int(rng.integers(3, n - 2))
            y[i] += (1 if s["shape"] == "spikes" else -1) * rng.uniform(20, 90)
        dat["measurement"] = vec(y)
    write_file(path, dat["amount"], dat["measurement"], dat["temperature"])
    m = float(truth["m"] * rng.uniform(0.9, 1.1))
    ev = dict(c=c, S=S, dat=dat, env=env, m=m)
    sr, err = call(files.solve, path, m, S, **c)
    ev["sol"] = {"err": err}
    if not err:
        ev["sol"] = solve_out(sr)
    r, err = call(split_core, c, S, path)
    if err:
        ev["g"] = {"err": err}
        return ev
    cv = r[0]
    emf = cv.measurement
    if s["mode"] == "pH_adjust":
        emf = must(convert.pH_to_emf, emf, 0, cv.temperature)
    kw = {}
    if "titrant_normality" in c:
        kw["titrant_normality"] = c["titrant_normality"]
    kl = dict(kw)
    if "gran_logic" in c:
        kl["gran_logic"] = c["gran_logic"]
    N = len(dat["amount"])
    gf = must(core.gran_function, cv.titrant_mass, emf, cv.temperature, cv.analyte_mass)
    gg, err = call(core.gran_guesses, cv.titrant_mass, emf, cv.temperature, cv.analyte_mass, m, **kl)
    ga, err2 = call(core.gran_alkalinity, cv.titrant_mass, emf, cv.temperature, cv.analyte_mass, m, **kl)
    ev["g"] = {"err": err or err2}
    if not (err or err2):
        es = must(core.gran_emf0s, cv.titrant_mass, emf, cv.temperature, cv.analyte_mass, m, ga.alkalinity, **kw)
        ev["g"] = {"err": "", "func": vec(gf, N), "alk": num(gg.alkalinity), "alk1": num(ga.alkalinity), "used": mask(gg.used),
                   "emf0": num(gg.emf0), "emf0s": vec(es, N), "emf0s2": vec(gg.emf0s, N), "pH": vec(gg.pH, N),
                   "x0": num(ga.intercept_x), "x02": num(gg.intercept_x)}
    ds, err = call(lambda: one_row(c, S, d, titrant_molinity=m).solve())
    ev["ds"] = {"err": err}
    if not err:
        ev["ds"].update(alk=num(ds.iloc[0]["gran_alkalinity"]), emf0=num(ds.iloc[0]["gran_emf0"]))
    return ev


RESULTS = ("alkalinity_npts", "alkalinity_std", "emf0", "gran_alkalinity", "gran_emf0", "pH_init", "temperature_init")


def results(r):
    """The other results, from whatever an entry point returns."""
    if isinstance(r, pd.DataFrame):
        r = r.iloc[0]
    elif not hasattr(r, "_fields"):
        r = r.row
    else:
        g = getattr(r, "ggr", None)
        r = {"alkalinity_npts": np.sum(r.used), "alkalinity_std": np.std(r.alkalinity_all[r.used]) if hasattr(r, "alkalinity_all") else NAN,
             "emf0": getattr(r, "emf0", NAN), "gran_alkalinity": NAN if g is None else g.alkalinity * 1e6,
             "gran_emf0": NAN if g is None else g.emf0, "pH_init": r.pH[0], "temperature_init": r.temperature[0]}
    return [num(r.get(k, NAN)) for k in RESULTS]


def c19(s, d):
    rng, c, S, dat, env, truth, path = prepare(s, d)
    m = float(truth["m"] * rng.uniform(0.97, 1.03))
    cert = float(truth["alk"] * rng.uniform(0.98, 1.02))
    ev = dict(c=c, S=S, dat=dat, env=env, m=m, cert=cert)
    sol, cal = {}, {}

    def put(box, name, fn, get):
        r, err = call(fn)
        box[name] = {"err": err, "v": NAN if err else num(get(r))}
        if box is sol:
            box[name]["r"] = [NAN] * 7 if err else results(r)

    def frame(cols, **extra):
        row = {"file_name": ["t.dat"], "file_path": [d + os.sep], "salinity": [S]}
        row.update({k: [v] for k, v in extra.items()})
        row.update({k: [v] for k, v in cols.items()})
        return pd.DataFrame(row)

    need = {k: v for k, v in c.items() if k in ("analyte_mass", "analyte_volume")}
    kw = {k: v for k, v in c.items() if k not in need}
    alk = lambda ds: ds["alkalinity"].iloc[0]
    mol = lambda ds: ds["titrant_molinity"].iloc[0]
    put(sol, "files", lambda: files.solve(path, m, S, **c), lambda r: r.alkalinity)
    put(sol, "files_path", lambda: files.solve("t.dat", m, S, file_path=d, **c), lambda r: r.alkalinity)
    os.chdir(d)
    put(sol, "files_here", lambda: files.solve("t.dat", m, S, file_path="", **c), lambda r: r.alkalinity)
    put(sol, "files_absolute", lambda: files.solve(path, m, S, file_path=os.path.join(d, "elsewhere"), **c), lambda r: r.alkalinity)
    put(cal, "files_here", lambda: files.calibrate("t.dat", cert, S, file_path="", **c), lambda r: r["x"][0])
    put(cal, "files_path", lambda: files.calibrate("t.dat", cert, S, file_path=d, **c), lambda r: r["x"][0])
    put(sol, "ds_columns", lambda: calk.Dataset(frame(c, titrant_molinity=m)).solve(), alk)
    put(sol, "ds_kwargs", lambda: calk.Dataset(frame(need, titrant_molinity=m)).solve(**kw), alk)
    put(sol, "df_function", lambda: calk.solve(frame(c, titrant_molinity=m)), alk)
    put(sol, "df_function_kwargs", lambda: calk.solve(frame(need, titrant_molinity=m), **kw), alk)
    put(cal, "files", lambda: files.calibrate(path, cert, S, **c), lambda r: r["x"][0])
    put(cal, "ds_columns", lambda: calk.Dataset(frame(c, alkalinity_certified=cert)).calibrate(), mol)
    put(cal, "ds_kwargs", lambda: calk.Dataset(frame(need, alkalinity_certified=cert)).calkulate(**kw), mol)
    put(cal, "df_function", lambda: calk.calibrate(frame(c, alkalinity_certified=cert)), mol)
    put(cal, "df_calkulate_kwargs", lambda: dataset.calkulate(frame(need, alkalinity_certified=cert), **kw), mol)
    if s["kind"] != "badmode":
        put(sol, "core", lambda: core_solve(c, S, path, m), lambda r: r.alkalinity)
        put(cal, "core", lambda: core_calibrate(c, S, path, cert), lambda r: r["x"][0])
        put(sol, "titration", lambda: calk.Titration(frame(c, titrant_molinity=m).iloc[0]), lambda r: r.alkalinity)
        put(sol, "titration_kwargs", lambda: calk.Titration(frame(need, titrant_molinity=m).iloc[0], **kw), lambda r: r.alkalinity)
        put(sol, "to_titration", lambda: calk.Dataset(frame(c, titrant_molinity=m)).solve().to_Titration(0), lambda r: r.alkalinity)
        if s["mode"] == "pH_adjust":
            # the same as emf with the EMF of the pH at EMF0 = 0
            p2 = os.path.join(d, "emf.dat")
            t = np.array(dat["temperature"])
            if "temperature_override" in c:
                t[:] = c["temperature_override"]
            from drvlib import emf_of
            write_file(p2, dat["amount"], emf_of(np.array(dat["measurement"]), 0.0, t), dat["temperature"])
            c2 = dict(c, solve_mode="emf", emf0_init=0)
            put(sol, "as_emf", lambda: files.solve(p2, m, S, **c2), lambda r: r.alkalinity)
    ev["sol"], ev["cal"], ev["bad"] = sol, cal, s["kind"] == "badmode"
    return ev
