"""Helpers shared by the drivers: encoding, the code under test, PyCO2SYS as the
environment, and a bench that makes titration data."""

import contextlib
import io
import math
import os
import sys
import warnings

import numpy as np


class CodeError(Exception):
    """The code under test failed where it must not."""


try:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            import PyCO2SYS as pyco2
except Exception as x:  # environment, not the code under test
    raise
try:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import calkulate as calk
        from calkulate import convert, core, dataset, density, files, interface, loss, simulate
        from calkulate.read import titrations as readt
except Exception as x:
    raise CodeError(repr(x))

SEED = int(os.environ.get("VERIF_SEED", "1"))


def rng_for(scn, salt=0):
    """Random numbers of a scenario: depend only on VERIF_SEED and its id."""
    return np.random.default_rng([SEED, int(scn["id"]), salt])


# ----------------------------------------------------------------- encoding
def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return [jsonable(v) for v in x.tolist()]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return "\x01#NaN"
        if math.isinf(x):
            return "\x01#Infinity" if x > 0 else "\x01#-Infinity"
        return x
    if x is None:
        return None
    return str(x)


def num(x):
    """A scalar outcome as a float (size-1 arrays count as scalars)."""
    if x is None:
        return float("nan")
    a = np.asarray(x)
    if a.size != 1:
        raise CodeError(f"scalar expected, got shape {a.shape}")
    try:
        return float(a.reshape(-1)[0])
    except (TypeError, ValueError):
        raise CodeError(f"number expected, got {x!r}")


def vec(x, n=None):
    """A vector outcome as a list of floats; scalars are broadcast to n."""
    a = np.asarray(x)
    try:
        a = a.astype(float)
    except (TypeError, ValueError):
        raise CodeError(f"numbers expected, got {x!r}")
    if a.ndim == 0:
        a = np.full(1 if n is None else n, float(a))
    a = a.reshape(-1)
    if a.size == 1 and n is not None and n > 1:
        a = np.full(n, a[0])
    return [float(v) for v in a]


def mask(x):
    return [bool(v) for v in np.asarray(x).reshape(-1)]


def call(fn, *a, **k):
    """Call the code under test; returns (value, "") or (None, "Type: text")."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k), ""
    except Exception as x:
        return None, f"{type(x).__name__}: {x}"[:200] or "error"


def must(fn, *a, **k):
    v, e = call(fn, *a, **k)
    if e:
        raise CodeError(f"{getattr(fn, '__name__', fn)}: {e}")
    return v


# -------------------------------------------------- PyCO2SYS = environment
KNAMES = ["k_alpha", "k_ammonia", "k_beta", "k_bisulfate", "k_borate", "k_carbonic_1", "k_carbonic_2",
          "k_fluoride", "k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3", "k_silicate", "k_sulfide",
          "k_water"]
SALTS = ["total_borate", "total_fluoride", "total_sulfate"]


def env_for(c, salinity, temps, df=None, scale=3):
    """PyCO2SYS's salts for the salinity and constants at each temperature.

    c: effective options; df: dilution factors for dilute_totals_for_ks."""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        temps = np.asarray(temps, dtype=float)
        s = pyco2.sys(salinity=float(salinity), opt_total_borate=int(c.get("opt_total_borate", 1)),
                      opt_k_carbonic=int(c.get("opt_k_carbonic", 10)))
        salts = {k: float(s[k]) for k in SALTS}
        a = dict(salinity=float(salinity), temperature=temps, pressure=0, opt_pH_scale=scale,
                 opt_k_carbonic=int(c.get("opt_k_carbonic", 10)),
                 opt_k_bisulfate=int(c.get("opt_k_bisulfate", 1)),
                 opt_k_fluoride=int(c.get("opt_k_fluoride", 1)), opt_gas_constant=3)
        for k in SALTS:
            v = float(c.get(k, salts[k]))
            a[k] = v * np.asarray(df) if (df is not None and c.get("dilute_totals_for_ks")) else v
        for k in KNAMES:
            if k in c:
                a[k] = float(c[k])
        r = pyco2.sys(**a)
        k = {q: [float(v) for v in np.broadcast_to(np.asarray(r[q], dtype=float), temps.shape)] for q in KNAMES}
        if scale == 1:
            tso4 = np.broadcast_to(np.asarray(a["total_sulfate"]) * 1e-6, temps.shape)
            k["k_fluoride"] = [f * (1 + t / b) for f, t, b in zip(k["k_fluoride"], tso4, k["k_bisulfate"])]
        salts["k"] = k
        return salts


# ----------------------------------------------------------------- the bench
F_, R_, T0_ = 96.4853365, 8.3144621, 273.15


def slope(t):
    return R_ * (np.asarray(t, dtype=float) + T0_) / F_


def emf_of(pH, emf0, t):
    return emf0 - math.log(10.0) * np.asarray(pH) * slope(t)


def bench_alk(pH, T, K):
    """Alkalinity (mol/kg) of solutions with totals T and constants K."""
    h = 10.0 ** -pH
    a = K["k_water"] / h - h
    if "dic" in T:
        d = h * h + K["k_carbonic_1"] * h + K["k_carbonic_1"] * K["k_carbonic_2"]
        a = a + T["dic"] * (K["k_carbonic_1"] * h + 2 * K["k_carbonic_1"] * K["k_carbonic_2"]) / d

    def mono(t, k):
        return T[t] * K[k] / (K[k] + h) if t in T else 0.0

    a = a + mono("total_borate", "k_borate") + mono("total_silicate", "k_silicate")
    a = a + mono("total_ammonia", "k_ammonia") + mono("total_sulfide", "k_sulfide")
    if "total_phosphate" in T:
        p1 = K["k_phosphoric_1"]
        p12 = p1 * K["k_phosphoric_2"]
        p123 = p12 * K["k_phosphoric_3"]
        d = h**3 + p1 * h * h + p12 * h + p123
        a = a + T["total_phosphate"] * (p12 * h + 2 * p123 - h**3) / d
    if "total_fluoride" in T:
        a = a - T["total_fluoride"] * h / (K["k_fluoride"] + h)
    if "total_sulfate" in T:
        a = a - T["total_sulfate"] * h / (K["k_bisulfate"] + h)
    for s in ("alpha", "beta"):
        if "total_" + s in T:
            t, k = T["total_" + s], K["k_" + s]
            a = a + np.where(-np.log10(k) <= 4.5, -t * h / (k + h), t * k / (k + h))
    return a


def bench_pH(alk, T, K, lo=-1.0, hi=13.0):
    """pH at which the solutions have the alkalinity (bisection)."""
    lo = np.full(np.shape(alk), lo)
    hi = np.full(np.shape(alk), hi)
    for _ in range(110):
        mid = 0.5 * (lo + hi)
        up = bench_alk(mid, T, K) < alk
        lo = np.where(up, mid, lo)
        hi = np.where(up, hi, mid)
    return 0.5 * (lo + hi)


def rho_sw(t, s):
    return 1e-3 * (
        999.842594 + 6.793952e-2 * t - 9.095290e-3 * t**2 + 1.001685e-4 * t**3 - 1.120083e-6 * t**4
        + 6.536336e-9 * t**5
        + (0.824493 - 4.0899e-3 * t + 7.6438e-5 * t**2 - 8.2467e-7 * t**3 + 5.3875e-9 * t**4) * s
        + (-5.72466e-3 + 1.0227e-4 * t - 1.6546e-6 * t**2) * s**1.5 + 4.8314e-4 * s**2)


def rho_hcl(a, b):
    m = a + b
    v = a * (17.854 + 1.460 * m**0.5 - 0.307 * m) + b * (16.613 + 1.811 * m**0.5 + 0.094 * m)
    return 0.99704 * (1e3 + 36.46 * a + 58.44 * b) / (1e3 + v * 0.99704)


def rho_h2so4(m):
    return 0.99750018 + 0.06181819 * m - 0.00285491 * m**2


def unit_factor(c):
    u = str(c.get("titrant_amount_unit", "ml")).lower()
    if u == "kg":
        return 1.0
    if u == "g":
        return 1e-3
    if "titrant_density" in c:
        return c["titrant_density"] * 1e-3
    if str(c.get("titrant", "HCl")).lower() == "h2so4":
        return rho_h2so4(c.get("molinity_H2SO4", 0.1)) * 1e-3
    return rho_hcl(c.get("molinity_HCl", 0.1), c.get("molinity_NaCl", 0.6)) * 1e-3


def write_file(path, amount, meas, temp, header=("titration", "amount\tmeasurement\ttemperature"), sep="\t"):
    with open(path, "w") as f:
        for h in header:
            f.write(h + "\n")
        for a, m, t in zip(amount, meas, temp):
            f.write(sep.join(repr(float(v)) for v in (a, m, t)) + "\n")


MINOR = {"po4": ("total_phosphate", 0.5, 8), "si": ("total_silicate", 2, 120), "nh3": ("total_ammonia", 0.5, 30),
         "h2s": ("total_sulfide", 0.5, 40), "alpha": ("total_alpha", 5, 60), "beta": ("total_beta", 5, 60)}


def concretise(s, rng):
    """Numbers for an abstract titration scenario (see spec/gen/RunGen.tla).

    Returns (c, truth): effective options and the true sample."""
    g = s.get
    c = {}
    mode = g("mode", "emf")
    if mode != "emf" or g("modename"):
        c["solve_mode"] = g("modename") or mode
    ext = g("ext", "")
    S = float(rng.uniform(6, 41)) if g("salinity", "any") == "any" else 35.0
    if ext == "fresh":
        S = float(rng.uniform(0.4, 5))
    if ext == "salty":
        S = float(rng.uniform(42, 50))
    if ext == "integers":
        S = 35
    # units
    u = g("unit", "g")
    if u != "ml" or g("unitgiven", True):
        c["titrant_amount_unit"] = {"ml": "ml", "g": "g", "kg": "kg", "ML": "mL", "G": "G", "KG": "Kg"}[u]
    if u.lower() == "ml":
        if g("dens", "calc") == "given":
            c["titrant_density"] = float(rng.uniform(0.99, 1.06))
        if g("titrant", "HCl") == "H2SO4":
            c["titrant"] = "H2SO4"
            if g("mol", "default") == "given":
                c["molinity_H2SO4"] = float(rng.uniform(0.06, 0.6))
        elif g("mol", "default") == "given":
            c["molinity_HCl"] = float(rng.uniform(0.05, 0.4))
            c["molinity_NaCl"] = float(rng.uniform(0.2, 0.8))
    # analyte
    mass = float(rng.uniform(0.05, 0.25))
    if ext == "smallmass":
        mass = float(rng.uniform(0.004, 0.03))
    if ext == "bigmass":
        mass = float(rng.uniform(0.9, 2.5))
    an = g("analyte", "mass")
    if an in ("mass", "both"):
        c["analyte_mass"] = mass
    if an in ("volume", "both"):
        c["analyte_volume"] = float(mass * 1e3 * rng.uniform(0.9, 1.1)) if an == "both" else mass * 1e3
    # composition
    alk = float(rng.uniform(800, 3800))
    if ext == "lowalk":
        alk = float(rng.uniform(150, 700))
    if ext == "highalk":
        alk = float(rng.uniform(4000, 9000))
    if ext == "acidic":     # more acid than bases
        alk = -float(rng.uniform(60, 350))
    for x in g("comp", []):
        if x == "dic":
            c["dic"] = float(rng.uniform(0.3, 0.93) * abs(alk))
            if ext == "tiny":
                c["dic"] = float(rng.uniform(0.02, 0.9))
            if ext == "integers":
                c["dic"] = int(c["dic"])
        else:
            nm, lo, hi = MINOR[x]
            c[nm] = float(rng.uniform(lo, hi))
            if ext == "tiny":
                c[nm] = float(rng.uniform(0.02, 0.9)) * (1e-4 if rng.random() < 0.4 else 1)
            if ext == "bigtot":
                c[nm] = float(hi * rng.uniform(2, 5))
            if ext == "integers":
                c[nm] = int(np.ceil(c[nm]))
            if x in ("alpha", "beta"):
                c["k_" + x] = float(10 ** -rng.uniform(*((3.2, 4.4) if rng.random() < 0.5 else (4.6, 7.5))))
    for x in g("salts", []):
        c[x] = {"total_borate": float(rng.uniform(100, 700)), "total_fluoride": float(rng.uniform(20, 120)),
                "total_sulfate": float(rng.uniform(9000, 36000))}[x]
    for x, v in (g("opts") or {}).items():
        c[x] = v
    # titrant
    nu = {"1": 1, "2": 2, "1.5": 1.5, "0.8": 0.8}[g("nu", "1")]
    if g("nu", "1") != "1":
        c["titrant_normality"] = nu
    for x in g("adds", []):
        c["titrant_total_" + x] = float(rng.choice([1.0, 0.5, 2.0])) * {"sulfate": 1.0, "phosphate": 0.02, "fluoride": 0.02}[x]
    # window
    w = g("window", "default")
    lo, hi = {"default": (3.0, 4.0), "low": (2.8, 3.6), "narrow": (3.2, 3.7), "wide": (3.0, 5.0),
              "high": (3.3, 4.6), "min": (3.2, 4.0), "max": (3.0, 3.8), "thin": (3.25, 3.55), "upper": (3.7, 6.3),
              "all": (0.5, 11.0), "any": (0, 0)}[w]
    if w == "any":
        lo = float(rng.uniform(2.8, 3.5))
        hi = float(lo + rng.uniform(0.3, 1.6))
    if w not in ("default", "max"):
        c["pH_min"] = lo
    if w not in ("default", "min"):
        c["pH_max"] = hi
    if g("double", "default") != "default":
        c["double"] = g("double") == "yes"
    if g("logic", "default") != "default":
        c["gran_logic"] = g("logic")
    for x in g("kgiven", []):
        c[x] = 1.0   # replaced below once PyCO2SYS's own value is known
    if g("dil"):
        c["dilute_totals_for_ks"] = True if rng.random() < 0.6 else 1
    # data
    m = float(rng.uniform(0.06, 0.25)) / nu
    if ext == "strong":
        m = float(rng.uniform(0.4, 1.2)) / nu
    if ext == "weak":
        m = float(rng.uniform(0.03, 0.05)) / nu
    if g("npts"):
        n = int(g("npts"))
    else:
        n = int(rng.integers(26, 38))
    if ext == "many":
        n = int(rng.integers(70, 110))
    elif hi - lo < 0.5 and not g("npts"):
        n = int(rng.integers(60, 90))
    t0 = float(rng.uniform(12, 31))
    if ext == "cold":
        t0 = float(rng.uniform(0, 6))
    if ext == "hot":
        t0 = float(rng.uniform(33, 42))
    if ext == "freezing":
        t0 = 0.0
    tmode = g("temp", "const")
    temp = np.full(n, t0)
    if tmode != "const":
        temp = t0 + float(rng.uniform(0.8, 2.5)) * np.linspace(0, 1, n) ** 1.3 + 0.05 * rng.standard_normal(n)
    temp = np.round(temp, 3)
    if g("tint"):
        temp = np.round(temp)
    if tmode == "override":
        c["temperature_override"] = float(np.round(t0 + rng.uniform(-6, 6), 2))
        if g("tint"):
            c["temperature_override"] = float(np.floor(t0)) + 0.7
    teff = np.full(n, c["temperature_override"]) if tmode == "override" else temp
    am = c.get("analyte_mass")
    if am is None:
        am = c["analyte_volume"] * rho_sw(teff[0], S) * 1e-3
    # constants stated by the user differ a little from PyCO2SYS's
    if g("kgiven"):
        base = env_for({k: v for k, v in c.items() if k not in g("kgiven")}, S, teff[:1])
        for x in g("kgiven"):
            c[x] = float(base["k"][x][0] * 10 ** rng.uniform(-0.25, 0.25))
    ex = 10 ** -(max(lo, 2.8) - 0.22) * 1.35
    fac = unit_factor(c)
    tm_end = am * (alk * 1e-6 + ex) / (m * nu - ex)
    tm = np.linspace(0, tm_end, n)
    if g("start", "zero") != "zero" or ext == "late":
        tm = np.linspace(tm_end * 0.35, tm_end, n)
    # rows that repeat an amount of titrant, or are not in the order of the titration
    odd = g("data", "plain")
    if odd == "shuffle" and mode.lower() in ("emf", "ph_adjust"):
        odd = "repeat"   # the Gran estimate takes the rows in order
    if odd == "repeat":
        for j in rng.choice(n - 1, 4, replace=False):
            tm[j + 1] = tm[j]
    if odd == "shuffle":
        tm = tm[rng.permutation(n)]
    amount = tm / fac
    amount = np.round(amount, 7 if fac > 0.5 else 5)
    tm = amount * fac
    df = am / (tm + am)
    env = env_for(c, S, teff, df)
    T = {k: c.get(k, env[k]) * 1e-6 * df for k in SALTS}
    T["dic"] = c.get("dic", 0.0) * 1e-6 * df
    for nm, _, _ in MINOR.values():
        if nm in c:
            T[nm] = c[nm] * 1e-6 * df
    for x in ("sulfate", "phosphate", "fluoride"):
        if "titrant_total_" + x in c:
            T["total_" + x] = T.get("total_" + x, 0.0) + tm * m * c["titrant_total_" + x] / (tm + am)
    K = {k: np.asarray(v) for k, v in env["k"].items()}
    mix = alk * 1e-6 * df - tm * m * nu / (tm + am)
    pH = bench_pH(mix, T, K)
    emf0 = float(rng.uniform(250, 680))
    noise = {"none": 0.0, "small": 0.05, "big": 0.4}[g("noise", "none")]
    ispH = mode.lower() != "emf"
    if ispH:
        off = 0.0
        if mode.lower() == "ph_adjust":
            # a miscalibrated pH electrode: constant EMF0 error
            e0 = float(rng.uniform(-4, 4))
            meas = pH - e0 / (math.log(10) * slope(teff)) * 1.0
            emf0 = e0
        else:
            meas = pH
        meas = meas + noise * 0.02 * rng.standard_normal(n)
    else:
        meas = emf_of(pH, emf0, teff) + noise * rng.standard_normal(n)
    if odd == "spikes":
        # faulty points, away from the beginning and the end
        j = rng.choice(np.arange(2, n - 3), 3, replace=False)
        meas = np.array(meas)
        meas[j] += rng.choice([-1.0, 1.0], 3) * rng.uniform(0.3, 1.2, 3) * (1.0 if ispH else 20.0)
    if odd == "tail":
        # the electrode drifts towards the end: the Gran guess is off
        meas = np.array(meas)
        meas[-4:] += np.array([0.5, 1.0, 1.5, 2.0]) * rng.uniform(0.5, 1.0) * rng.choice([-1.0, 1.0]) * (-0.1 if ispH else 6.0)
    init = g("init", "none")
    if init in ("alk", "both"):
        c["alkalinity_init"] = float(alk * rng.uniform(0.9, 1.1))
    if init in ("emf0", "both"):
        c["emf0_init"] = float(emf0 + rng.uniform(-1.5, 1.5))
    truth = dict(alk=alk, m=m, emf0=emf0, pH=[float(x) for x in pH], noise=noise)
    dat = dict(amount=[float(x) for x in amount], measurement=[float(x) for x in meas],
               temperature=[float(x) for x in temp])
    return c, S, dat, env, truth


def solve_out(sr, err=""):
    """Observable outcome of a solve call, for the trace."""
    if err:
        return {"err": err}
    n = len(np.asarray(sr.titrant_mass))
    o = {"err": "", "kind": type(sr).__name__, "alk": num(sr.alkalinity), "used": mask(sr.used),
         "pH": vec(sr.pH, n), "tm": vec(sr.titrant_mass, n), "temp": vec(sr.temperature, n),
         "am": num(sr.analyte_mass), "m": num(sr.titrant_molinity),
         "totals": {k: vec(v, n) for k, v in sr.totals.items()},
         "ks": {k: vec(v, n) for k, v in sr.k_constants.items()}}
    if hasattr(sr, "emf0"):
        o["emf0"] = num(sr.emf0)
        o["emf"] = vec(sr.emf, n)
        o["gran_alk"] = num(sr.ggr.alkalinity)
        o["gran_emf0"] = num(sr.ggr.emf0)
        o["gran_used"] = mask(sr.ggr.used)
        o["gran_func"] = vec(sr.ggr.gfunc, n)
        o["gran_emf0s"] = vec(sr.ggr.emf0s, n)
        o["gran_pH"] = vec(sr.ggr.pH, n)
    if hasattr(sr, "alkalinity_all"):
        o["all"] = vec(sr.alkalinity_all, n)
        o["std"] = num(sr.alkalinity_std)
    if hasattr(sr, "gfunc"):
        o["gfunc"] = vec(sr.gfunc, n)
    return o


def cal_out(cal, err=""):
    if err:
        return {"err": err, "m": float("nan")}
    return {"err": "", "m": num(cal["x"][0])}
