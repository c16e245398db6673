"""Speciation and electrode conversions, called directly."""

import numpy as np

from drvlib import CodeError, call, convert, must, num, rng_for, simulate, vec

KFOR = {"dic": ("k_carbonic_1", "k_carbonic_2"), "total_borate": ("k_borate",),
        "total_phosphate": ("k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3"),
        "total_silicate": ("k_silicate",), "total_ammonia": ("k_ammonia",), "total_sulfide": ("k_sulfide",),
        "total_alpha": ("k_alpha",), "total_beta": ("k_beta",), "total_fluoride": ("k_fluoride",),
        "total_sulfate": ("k_bisulfate",)}
PKS = {"k_carbonic_1": 6, "k_carbonic_2": 9, "k_borate": 8.6, "k_phosphoric_1": 1.6, "k_phosphoric_2": 6,
       "k_phosphoric_3": 8.8, "k_silicate": 9.4, "k_ammonia": 9.3, "k_sulfide": 6.6, "k_fluoride": 2.5,
       "k_bisulfate": 1.0, "k_water": 13.2}


def at_zlp():
    k = 10.0**-4.5
    for _ in range(50):
        if -np.log10(k) == 4.5:
            return k
        k = np.nextafter(k, 1.0)
    return 10.0**-4.4


def c03(s, d):
    rng = rng_for(s)
    n = 6
    pH = rng.uniform(1.0, 11.0, n)
    pH[0] = float(rng.choice([3.0, 4.0, 8.1, 6.0]))
    if s["shape"] == "scalar":
        pH = float(pH[rng.integers(n)])
    if s["shape"] == "int":
        pH = np.round(pH).astype(int)
    kvec = s["shape"] in ("k_array", "all_array")
    tvec = s["shape"] in ("t_array", "all_array")
    T, K = {}, {}
    for t in sorted(s["totals"]):
        v = 10 ** rng.uniform(-6, -2.5, n)
        T[t] = v if tvec else float(v[0])
        for k in KFOR[t]:
            if k in ("k_alpha", "k_beta"):
                pk = {"below": rng.uniform(3, 4.45, n), "above": rng.uniform(4.55, 8, n),
                      "mixed": rng.uniform(4, 5, n), "at": np.full(n, 4.5)}[s["pk"]]
                v = 10.0**-pk if s["pk"] != "at" else np.full(n, at_zlp())
            else:
                v = 10 ** -(PKS[k] + rng.uniform(-0.5, 0.5, n))
            K[k] = v if kvec else float(v[0])
    if s["water"]:
        v = 10 ** -(13.2 + rng.uniform(-0.5, 0.5, n))
        K["k_water"] = v if kvec else float(v[0])
    if s["shape"] == "scalar":
        n = 1
    keepT = {k: np.array(v, copy=True) for k, v in T.items()}
    keepK = {k: np.array(v, copy=True) for k, v in K.items()}
    kp = np.array(pH, copy=True)
    kw = {} if s["kind"] == "default_scale" else {"opt_pH_scale": s["scale"]}
    c, e1 = call(simulate.alkalinity_components, pH, T, K, **kw)
    a, e2 = call(simulate.alkalinity, pH, T, K, **kw)
    ev = dict(which=s["kind"], err=(e1 and e2) if s["kind"] == "bad_scale" else (e1 or e2))
    if ev["err"] or s["kind"] == "bad_scale":
        return ev
    kept = (np.array_equal(kp, pH) and set(T) == set(keepT) and set(K) == set(keepK)
            and all(np.array_equal(T[k], keepT[k]) for k in T) and all(np.array_equal(K[k], keepK[k]) for k in K))
    ev.update(pH=vec(pH, n), T={k: vec(v, n) for k, v in keepT.items()}, K={k: vec(v, n) for k, v in keepK.items()},
              scale=s["scale"], comp={k: vec(v, n) for k, v in c.items()}, alk=vec(a, n), kept=bool(kept))
    return ev


def c17(s, d):
    rng = rng_for(s)
    shp = {"matrix": (2, 3)}.get(s["shape"], (6,))
    if s["shape"] == "scalar":
        shp = ()
    r = lambda lo, hi, arr: rng.uniform(lo, hi, shp) if arr and shp != () else float(rng.uniform(lo, hi))
    allarr = s["shape"] in ("array", "matrix", "int")
    tr = {"cold": (0, 8), "room": (15, 28), "hot": (30, 55), "sub": (-2, 0)}[s["t"]]
    t = r(*tr, allarr or s["shape"] == "t_array")
    e0 = r(-300, 800, allarr or s["shape"] == "emf0_array")
    fn = s["fn"]
    rx = {"emf_to_h": (-400, 700), "emf_to_pH": (-400, 700), "h_to_emf": (-12, -1), "pH_to_emf": (-0.5, 12),
          "f_to_demf0": (0.5, 1.6)}[fn]
    x = r(*rx, allarr or s["shape"] == "emf_array")
    if fn == "h_to_emf":
        x = 10.0**x
    if s["shape"] == "int" and fn in ("emf_to_h", "emf_to_pH", "pH_to_emf"):
        x, e0, t = (np.round(v).astype(int) for v in (x, e0, t))
    args = (x, t) if fn == "f_to_demf0" else (x, e0, t)
    keep = [np.array(v, copy=True) for v in args]
    y, err = call(getattr(convert, fn), *args)
    ev = dict(fn=fn, err=err)
    if err:
        return ev
    full = np.broadcast_shapes(*[np.shape(v) for v in args])
    n = int(np.prod(full)) if full else 1
    bc = lambda v: vec(np.broadcast_to(np.asarray(v, dtype=float), full).reshape(-1), n)
    ev.update(x=bc(x), e0=bc(e0) if fn != "f_to_demf0" else bc(0.0), t=bc(t), got=vec(y, n), shape_ok=bool(np.shape(y) == full),
              kept=bool(all(np.array_equal(a, b) for a, b in zip(keep, args))))
    back = {"emf_to_h": "h_to_emf", "h_to_emf": "emf_to_h", "emf_to_pH": "pH_to_emf", "pH_to_emf": "emf_to_pH"}
    if fn in back:
        ev["back"] = vec(must(getattr(convert, back[fn]), y, e0, t), n)
        sh = float(rng.uniform(-200, 200))
        if fn.startswith("emf"):
            ev["shifted"] = vec(must(getattr(convert, fn), x + sh, e0 + sh, t), n)
        else:
            ev["shifted"] = vec(np.asarray(must(getattr(convert, fn), x, e0 + sh, t)) - sh, n)
    else:
        # EMF0 changed by the difference of a factor f: [H+] becomes [H+]/f
        emf, b0 = rng.uniform(-300, 600), rng.uniform(0, 700)
        h = np.asarray(must(convert.emf_to_h, emf, b0, t)) * np.ones(full)
        ev["scaled"] = vec(must(convert.emf_to_h, emf, b0 + y, t), n)
        ev["ref"] = vec(h / x, n)
    return ev
