"""Simulated titrations and DIC-loss models (C16)."""

import copy

import numpy as np

from drvlib import KNAMES, CodeError, call, convert, loss, num, pyco2, rng_for, simulate, vec

TOTALS = ["total_alpha", "total_ammonia", "total_beta", "total_borate", "total_calcium", "total_fluoride",
          "total_phosphate", "total_silicate", "total_sulfate", "total_sulfide"]
DEFAULTS = dict(analyte_mass=0.1, dic=0.0, emf0=600.0, fCO2_air=450.0, salinity=35.0, temperature=25.0,
                titrant_mass_start=0.0, titrant_mass_step=0.15e-3, titrant_mass_stop=4.2e-3, titrant_molinity=0.1,
                opt_gas_constant=3, opt_k_bisulfate=1, opt_k_carbonic=10, opt_k_fluoride=1, opt_total_borate=1)
NAN = float("nan")


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True)


def simargs(s, rng):
    u = lambda lo, hi: float(np.round(rng.uniform(lo, hi), 4))
    g = dict(alkalinity=u(1500, 2600))
    x = set(s["given"])
    n = 28
    if "analyte_mass" in x:
        g["analyte_mass"] = u(0.05, 0.2)
    am = g.get("analyte_mass", 0.1)
    if "dic" in x:
        g["dic"] = u(1200, 2300)
    if "emf0" in x:
        g["emf0"] = u(400, 700) if rng.random() < 0.7 else 0.0
    if "fCO2_air" in x or (s["loss"] in ("weak", "strong") and rng.random() < 0.5):
        g["fCO2_air"] = u(200, 1000) if rng.random() < 0.6 else 0.0
    if "salinity" in x:
        g["salinity"] = u(5, 40)
    if "molinity" in x:
        g["titrant_molinity"] = u(0.05, 0.25)
    if "start" in x:
        g["titrant_mass_start"] = float(rng.uniform(1e-4, 1e-3)) * am * 10
    # (PyCO2SYS is asked point by point when DIC is lost)
    if "grid" in x or (s["loss"] != "none" and rng.random() < 0.9):
        n = int(rng.integers(5, 14)) if s["loss"] == "none" else int(rng.integers(3, 7))
        start = g.get("titrant_mass_start", 0.0)
        g["titrant_mass_step"] = float((am * rng.uniform(0.025, 0.042) - start) / n)
        g["titrant_mass_stop"] = float(start + g["titrant_mass_step"] * (n - rng.uniform(0.1, 0.9)))
        if rng.random() < 0.2:      # the stop is a point, which is excluded
            g["titrant_mass_step"] = 2.0**-12 * am * 10
            g["titrant_mass_start"] = start = 2.0**-11 * float(rng.integers(0, 2)) * am * 10
            g["titrant_mass_stop"] = start + n * g["titrant_mass_step"]
    for t, hi in (("total_alpha", 60), ("total_beta", 60), ("total_ammonia", 50), ("total_phosphate", 60), ("total_silicate", 200),
                  ("total_sulfide", 30), ("total_borate", 600), ("total_fluoride", 120), ("total_sulfate", 30000)):
        if t in x:
            g[t] = u(hi / 20, hi) if rng.random() < 0.8 else 0.0
            if t == "total_alpha":
                g["k_alpha"] = 10.0 ** -u(3, 7)
            if t == "total_beta":
                g["k_beta"] = 10.0 ** -u(3, 7)
    for o, vals in (("opt_k_carbonic", [4, 5, 9, 10, 14, 15, 16]), ("opt_k_bisulfate", [1, 2]), ("opt_k_fluoride", [1, 2]), ("opt_total_borate", [1, 2])):
        if o in x:
            g[o] = int(rng.choice(vals))
    if s["loss"] != "none":
        g["k_dic_loss"] = {"zero": 0.0, "weak": float(rng.uniform(0.05, 0.5)), "strong": float(rng.uniform(0.5, 4))}[s["loss"]]
    a = dict(DEFAULTS, **g)
    m = len(np.arange(a["titrant_mass_start"], a["titrant_mass_stop"], a["titrant_mass_step"]))
    if s["temp"] == "array":
        g["temperature"] = np.round(rng.uniform(18, 28) + np.cumsum(rng.uniform(0, 0.2, m)), 3)
    elif s["temp"] == "int":
        g["temperature"] = int(rng.integers(5, 30)) if rng.random() < 0.8 else 0
    elif "temperature" in x:
        g["temperature"] = u(5, 35)
    return g, dict(DEFAULTS, **g), m


def sim(s):
    rng = rng_for(s)
    g, a, n = simargs(s, rng)
    keep = copy.deepcopy(g)
    out, err = call(simulate._titration, **g)
    ev = dict(kind="sim", err=err, given=keep, args=a, kept=bool(same(keep, g)))
    # PyCO2SYS's answers for the specified mixture
    tm = a["titrant_mass_start"] + np.arange(n) * a["titrant_mass_step"]
    temps = np.broadcast_to(np.asarray(a["temperature"], dtype=float), (n,))
    am = a["analyte_mass"]
    df = am / (am + tm)
    extra = {k: v for k, v in a.items() if k.startswith(("total_", "k_")) and k != "k_dic_loss" or k.startswith("opt_")}
    s0 = pyco2.sys(salinity=a["salinity"], temperature=25, **{k: v for k, v in extra.items() if k.startswith("opt_")})
    salts = {k: float(np.ravel(s0[k])[0]) for k in ("total_borate", "total_calcium", "total_fluoride", "total_sulfate")}
    tot = {k: df * (a[k] if k in a else salts.get(k, 0.0)) for k in TOTALS}
    ks = {k: v for k, v in extra.items() if not k.startswith("total_")}
    alk = (am * a["alkalinity"] - 1e6 * tm * a["titrant_molinity"]) / (am + tm)
    ask = lambda i, d: pyco2.sys(par1=alk[i], par2=d, par1_type=1, par2_type=2, salinity=a["salinity"], temperature=temps[i],
                                 opt_pH_scale=3, **{k: v[i] for k, v in tot.items()}, **ks)
    dic = a["dic"] * df
    fCO2 = np.full(n, NAN)
    if "k_dic_loss" in a:
        step = a["titrant_mass_step"]
        for i in range(n - 1):
            fCO2[i] = float(ask(i, dic[i])["fCO2"])
            dic[i + 1] = dic[i] * (am + tm[i]) / (am + tm[i] + step) - a["k_dic_loss"] * (fCO2[i] - a["fCO2_air"]) * step
    r = ask(slice(None), dic)
    kn = [k for k in KNAMES if k not in ("k_alpha", "k_beta") or k in a]
    ev["env"] = dict(alk=vec(alk), dic=vec(dic), fCO2=vec(fCO2), pH=vec(r["pH_free"], n), salts=salts, K={k: vec(r[k], n) for k in kn})
    if err:
        return ev
    if not (isinstance(out, tuple) and len(out) == 6):
        raise CodeError("six results expected")
    m = len(np.ravel(out[0]))
    ev["out"] = dict(tm=vec(out[0]), emf=vec(out[1]), temp=vec(out[2], m), am=num(out[3]),
                     T={k: vec(v, m) for k, v in out[4].items() if k in TOTALS + ["dic"]}, K={k: vec(v, m) for k, v in out[5].items() if k in kn})
    # minor totals the definition needs only when present
    return ev


def fun(s):
    rng = rng_for(s)
    n = s["n"]
    k = {"zero": 0.0, "weak": rng.uniform(0.05, 0.5), "strong": rng.uniform(0.5, 4), "negative": -rng.uniform(0.05, 1)}[s["rate"]]
    step = float(rng.uniform(1e-5, 2e-4))
    am = float(rng.uniform(0.05, 0.2))
    tm = float(rng.uniform(0, 1e-3)) + step * np.arange(n)
    arr = lambda lo, hi, m=n: rng.uniform(lo, hi, m)
    pk = lambda p, m=n: 10.0 ** -(p + rng.uniform(-0.3, 0.3, m))
    ev = dict(kind="fun", fn=s["fn"])
    if s["fn"] == "fitted":
        q = dict(k=float(k), tm=tm, df=arr(-300, 30000), dic0=float(rng.uniform(1000e-6, 2300e-6)), am=am, step=step)
        keep = copy.deepcopy(q)
        y, err = call(loss.dic_loss_model_fitted, q["k"], q["tm"], q["df"], q["dic0"], q["am"], q["step"])
        ev.update(q=keep, err=err, kept=same(keep, q))
        if not err:
            ev["dic"] = vec(y)
    elif s["fn"] == "fco2":
        q = dict(dic=arr(100, 2300), pH=arr(3, 9), k0=pk(1.5), k1=pk(5.9), k2=pk(9))
        if n == 1:
            q = {a: float(b[0]) for a, b in q.items()}
        y, err = call(loss.get_fCO2_from_dic_pH, **q)
        ev.update(q={a: vec(b) for a, b in q.items()}, err=err)
        if not err:
            ev["got"] = vec(y)
    else:
        q = dict(k=float(k), f=dict(tm=tm, pH=arr(3, 5.5), k0=pk(1.5), k1=pk(5.9), k2=pk(9)), df0=float(rng.uniform(0, 30000)),
                 dic0=float(rng.uniform(1000, 2300)), am=am, step=step, air=450.0,
                 at={a: float(b[0]) for a, b in dict(pH=arr(5.4, 6), k0=pk(1.5), k1=pk(5.9), k2=pk(9)).items()})
        kw = {}
        if rng.random() < 0.6:
            q["air"] = kw["fCO2_air"] = float(rng.uniform(200, 900))
        keep = copy.deepcopy(q)
        f, at = q["f"], q["at"]
        y, err = call(loss.dic_loss_model_future, q["k"], f["tm"], f["pH"], f["k0"], f["k1"], f["k2"], q["df0"], q["dic0"],
                      at["pH"], at["k0"], at["k1"], at["k2"], am, step, **kw)
        ev.update(q=keep, err=err, kept=same(keep, q))
        if not err:
            ev.update(dic=vec(y[0]), df=vec(y[1]))
    return ev


def titration_losing(s, rng):
    """A titration with DIC loss, roughly."""
    n = s["n"]
    am = float(rng.uniform(0.08, 0.15))
    end = am * 0.034
    if s["spacing"] == "even":
        tm = np.arange(n) * (end / n)
    elif s["spacing"] == "uneven":
        tm = np.cumsum(rng.uniform(0.4, 1.6, n)) * (end / n)
        tm -= tm[0]
    else:
        tm = np.concatenate((np.arange(n // 2) * 1.5, n // 2 * 1.5 + np.arange(n - n // 2) * 0.75)) * (end / n)
    if s["start"] == "late":
        tm = tm + rng.uniform(0.1, 1.3) * end / n
    temp = np.full(n, 24.0) + (np.linspace(0, 0.4, n) if s["temp"] == "drift" else 0)
    alk0, dic0 = rng.uniform(2200, 2500), rng.uniform(1900, 2150)
    alk = (am * alk0 - 1e6 * tm * 0.1) / (am + tm)
    df = am / (am + tm)
    dic = dic0 * df * (1 - (-0.5 if s.get("trend") == "gain" else 1) * np.linspace(0, rng.uniform(0.02, 0.2), n) ** 1.2)
    r = pyco2.sys(par1=alk, par2=dic, par1_type=1, par2_type=2, salinity=34, temperature=temp, opt_pH_scale=3)
    pH = np.minimum.accumulate(r["pH_free"] + rng.normal(0, 0.002, n)) - 1e-6 * np.arange(n)
    f = lambda x: np.asarray(x) * np.ones(n)
    q = dict(tm=tm, pH=pH, dic=dic + rng.normal(0, 2, n), fCO2=f(r["fCO2"]) * (1 + rng.normal(0, 0.01, n)), k0=f(r["k_CO2"]),
             k1=f(r["k_carbonic_1"]), k2=f(r["k_carbonic_2"]), am=am, dic0=float(dic0 * 1e-6), air=450.0, split=5.5)
    if s["nan"] == "tail":
        q["dic"][-int(rng.integers(1, 3)):] = NAN
        q["fCO2"][-int(rng.integers(1, 3)):] = NAN
    return q


def losses(s):
    rng = rng_for(s)
    q = titration_losing(s, rng)
    kw = {}
    if s["air"] == "other":
        q["air"] = kw["fCO2_air"] = float(rng.uniform(200, 800)) if rng.random() < 0.7 else 0.0
    if s["split"] == "high":
        q["split"] = kw["split_pH"] = float(rng.uniform(6, 6.5))
    elif s["split"] == "low":
        q["split"] = kw["split_pH"] = float(rng.uniform(4.5, 5.2))
    if kw.get("split_pH") and rng.random() < 0.3:       # a point exactly at the split
        i = int(np.argmin(abs(q["pH"] - q["split"])))
        q["split"] = kw["split_pH"] = float(q["pH"][i])
    if q["split"] < q["pH"].min() + 0.4:      # there has to be something to forecast
        q["split"] = kw["split_pH"] = float(q["pH"].min() + 0.4)
    keep = copy.deepcopy(q)
    args = [q[k] for k in ("tm", "pH", "dic", "fCO2", "k0", "k1", "k2", "am", "dic0")]
    h, e1 = call(loss.get_dic_loss_hires, *args, **kw)
    y, e2 = call(loss.get_dic_loss, *args, **kw)
    ev = dict(kind="loss", err=e1 or e2, q=keep, kept=bool(same(keep, q)))
    if ev["err"]:
        return ev
    ev.update(k=num(h[0]), hi=dict(tm=vec(h[1]["titrant_mass"]), pH=vec(h[1]["pH"]), dic=vec(h[1]["dic"]), df=vec(h[1]["delta_fCO2"])),
              k2=num(y[0]), dicm=vec(y[1]), fm=vec(y[2]), label=[bool(v) for v in np.ravel(y[3])])
    return ev


def known(s):
    want = 2300.0
    y, err = call(simulate.titration, want, dic=2000.0)
    ev = dict(kind="known", case="simulate-titration", err=err, want=want)
    if not err:
        ev["alk"] = num(y.alkalinity)
    return ev


def c16(s, d):
    return {"sim": sim, "fun": fun, "loss": losses, "known": known}[s["kind"]](s)
