"""Plots of Titrations and datasets: what is on the axes."""

import os
import re
import types
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.dates
import numpy as np
import pandas as pd
from matplotlib import collections as mc
from matplotlib import pyplot as plt

import drv_sim
import drv_tit
from drv_table import Files, index_for
from drvlib import CodeError, call, calk, loss, rng_for

NAN = float("nan")
NUMBER = re.compile(r"(?<![\w.])[-−+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)(?![\w])")


def pairs(xy):
    a = np.ma.filled(np.ma.asarray(xy, dtype=float), NAN).reshape(-1, 2)
    return [[float(x), float(y)] for x, y in a]


def label(a):
    s = a.get_label()
    return "" if s is None or str(s).startswith("_") else str(s)


def thin(p):
    """Some vertices of a long line, with its ends."""
    if len(p) <= 60:
        return p
    return [p[i] for i in sorted(set(range(0, len(p), 47)) | {len(p) - 1})]


def drawing(ax):
    """Everything drawn on the axes."""
    colls, areas = [], []
    for c in ax.collections:
        if isinstance(c, mc.PathCollection):
            v = c.get_array()
            filled = bool(len(c.get_facecolor())) and bool(np.any(np.asarray(c.get_facecolor())[:, 3] > 0))
            if v is None and not filled and not (c.get_paths() and len(c.get_paths()[0].codes if c.get_paths()[0].codes is not None else [])):
                filled = False
            # markers without a face ("x") are drawn in their edge colour
            if not filled and c.get_paths() and not is_closed(c.get_paths()[0]):
                filled = True
            # points that can be seen
            pts = pairs(c.get_offsets())
            seen = [i for i, q in enumerate(pts) if np.isfinite(q).all()]
            value = [] if v is None else np.ma.filled(np.ma.asarray(v, dtype=float), NAN).ravel().tolist()
            colls.append(dict(label=label(c), pts=[pts[i] for i in seen], filled=filled or v is not None,
                              value=[value[i] for i in seen] if len(value) == len(pts) else value))
        else:
            ys = [v[1] for p in c.get_paths() for v in p.vertices]
            areas.append(dict(label=label(c), lo=float(min(ys)) if ys else NAN, hi=float(max(ys)) if ys else NAN))
    lines = []
    for l in ax.lines:
        x = ax.convert_xunits(l.get_xdata(orig=False))
        p = pairs(np.column_stack([np.asarray(x, dtype=float), np.asarray(l.get_ydata(orig=False), dtype=float)]))
        p = [q for q in p if np.isfinite(q).all()]
        lines.append(dict(label=label(l), pts=p if len(p) != 500 else thin(p)))
    leg = ax.get_legend()
    return dict(colls=colls, lines=lines, areas=areas, title=[float(x.replace("−", "-")) for x in NUMBER.findall(ax.get_title())],
                xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), legend=[t.get_text() for t in leg.get_texts()] if leg else [],
                inverted=bool(ax.yaxis_inverted()), credit=any("Calkulate" in t.get_text() for t in ax.texts))


def is_closed(path):
    return path.codes is None or 79 in set(np.asarray(path.codes).tolist()) or len(path.vertices) > 8


def observe(fn, name, given):
    """Call a plotting function on its own or on given axes."""
    plt.close("all")
    ax = None
    if given:
        fig, axs = plt.subplots(1, 2)
        ax = axs[1]
        other = axs[0]
    else:                   # somebody else's figure is open
        other = plt.figure().add_subplot()
    before = plt.get_fignums()
    got, err = call(lambda: fn(ax=ax) if given else fn())
    p = dict(name=name, err=err)
    if not err:
        after = plt.get_fignums()
        real = got if got is not None and hasattr(got, "collections") else (ax if given else plt.gcf().axes[0])
        p["returned"] = bool(got is real)
        p["onaxes"] = bool((not given or got is ax) and not other.collections and not other.lines)
        p["figures"] = bool(after == before if given else len(after) == len(before) + 1)
        p.update(drawing(real))
    plt.close("all")
    return p


def titplot(s, d):
    t = dict(s["tit"], id=s["id"])
    rng, f, rec, ds, pos, kw = drv_tit.build(t, d)
    w = s["rep"]
    pos_name = ds.index[pos]
    if w != "none":
        n = len(ds)
        lo = {"min_null": [None] * n, "both_null": [None] * n}.get(w, [3.1] * n)
        hi = {"max_null": [None] * n, "both_null": [None] * n}.get(w, [4.2] * n)
        ds["pH_min"], ds["pH_max"] = lo, hi
    if s["dup"] == "repeat":            # two readings at one titrant amount
        for p, txt in list(f.text.items()):
            ls = txt.splitlines()
            if len(ls) > 12:
                k = len(ls) - 4
                a, b, c = ls[k].split("\t")[:3]
                ls.insert(k, "\t".join([a, repr(float(b) + (0.4 if float(b) > 20 else -0.004)), c]))
                f.put(p, "\n".join(ls) + "\n")
    row, (tt, err) = drv_tit.titration(t, ds, pos, kw)
    ev = dict(kind="titplot", err=err)
    if err:
        return ev
    t0, r0 = tt.titration.copy(), tt.row.copy()
    T = tt.titration
    tab = {str(k): drv_tit.column(T[k]) for k in T.columns if T[k].dtype.kind in "bfi"}
    ev.update(tab=tab, row={k: v for k, v in drv_tit.cells(tt.row).items() if k in (
        "pH_min", "pH_max", "alkalinity", "gran_alkalinity", "gran_emf0")})
    m = calk.plot.titration
    todo = {"pH": (tt.plot_pH, m.pH, {}), "pH_nogran": (tt.plot_pH, m.pH, dict(show_gran=False)),
            "alkalinity": (tt.plot_alkalinity, m.alkalinity, {}), "components": (tt.plot_components, m.components, {}),
            "components_linear": (tt.plot_components, m.components, dict(log_scale=False))}
    if "emf" in tab:
        todo.update(emf=(tt.plot_emf, m.emf, {}), gran_emf0=(tt.plot_gran_emf0, m.gran_emf0, {}))
    if "gran_used" in tab:
        todo.update(gran_alkalinity=(tt.plot_gran_alkalinity, m.gran_alkalinity, {}))
    plots = []
    for name, (method, function, opts) in todo.items():
        fn = (lambda method=method, opts=opts, **k: method(**opts, **k)) if rng.random() < 0.6 else (
            lambda function=function, opts=opts, **k: function(tt, **opts, **k))
        plots.append(observe(fn, name, bool(rng.random() < 0.5)))
    ev.update(plots=plots, kept=bool(drv_tit.same_frame(t0, tt.titration) and drv_tit.same_row(r0, tt.row)))
    return ev


def dsplot(s, d):
    rng = rng_for(s)
    n = len(s["rows"])
    order = "DAFCBE"
    labels = {b: {"int": 7 - 3 * i, "str": f"B{10 - i}", "float": 1.5 - i / 4, "date": pd.Timestamp("2021-01-02") - pd.Timedelta(days=i)}[s["label"]]
              for i, b in enumerate(order)}
    labels[""] = {"int": None, "str": None, "float": NAN, "date": pd.NaT}[s["label"]]
    ref = [{"T": True, "F": False, "null": None}[r["ref"]] for r in s["rows"]]
    if s["refcol"] == "bool":
        ref = np.array([bool(x) for x in ref])
    elif s["refcol"] == "object":
        ref = np.array([bool(x) for x in ref], dtype=object)
    elif s["refcol"] == "null":
        ref = np.array([NAN if x is None and rng.random() < 0.6 else x for x in ref], dtype=object)
    if s["refcol"] == "absent":
        ref = [True] * n
    data = dict(
        titrant_molinity_here=[float(rng.uniform(0.09, 0.11)) if r["here"] else NAN for r in s["rows"]],
        titrant_molinity=[float(rng.uniform(0.09, 0.11)) for r in s["rows"]],
        alkalinity_offset=[float(rng.normal(0, 3)) if r["offset"] else NAN for r in s["rows"]],
        analysis_batch=[labels[r["batch"]] for r in s["rows"]],
        number=[float(x) for x in np.round(rng.uniform(0, 50, n), 3)], int=[int(x) for x in rng.permutation(n) * 3],
        date=[pd.Timestamp("2020-05-01") + pd.Timedelta(days=int(x), hours=int(x) % 7) for x in rng.permutation(n)])
    if s["refcol"] != "absent":
        data["reference_good"] = ref
    if n > 2 and rng.random() < 0.4:        # rows that have no place on the x axis
        for i in rng.integers(0, n, 2):
            data["number"][i], data["date"][i] = NAN, pd.NaT
    df = pd.DataFrame(data, index=index_for(s["index"], n, rng))
    ds = calk.Dataset(df) if rng.random() < 0.6 else df
    kw = {}
    if s["xvar"] != "none":
        kw["xvar"] = s["xvar"]
    for k, o in (("bad", "show_bad"), ("batches", "show_batches")):
        if s[k] != "default":
            kw[o] = s[k] == "TRUE"
    path = os.path.join(d, "fig.png")
    if s["file"]:
        kw["figure_fname"] = path
    before = ds.copy()
    plt.close("all")
    other = plt.figure().add_subplot()
    fn = getattr(calk.plot, s["fn"])
    if isinstance(ds, calk.Dataset) and rng.random() < 0.7:
        got, err = call(lambda: getattr(ds, "plot_" + s["fn"])(**kw))
    else:
        got, err = call(lambda: fn(ds, **kw))
    p = dict(name=s["fn"], err=err)
    if not err:
        if not (isinstance(got, tuple) and len(got) == 2 and hasattr(got[1], "collections")):
            raise CodeError("figure and axes expected")
        fig, ax = got
        p.update(returned=bool(ax in fig.axes), onaxes=not other.collections and not other.lines, figures=bool(len(plt.get_fignums()) == 2), **drawing(ax))
    plt.close("all")
    if s["xvar"] == "none":
        xs = list(range(n))
    elif s["xvar"] == "date":
        xs = [NAN if pd.isnull(v) else float(matplotlib.dates.date2num(v)) for v in data["date"]]
    else:
        xs = data[s["xvar"]]
    rows = [dict(here=data["titrant_molinity_here"][i], mol=data["titrant_molinity"][i], offset=data["alkalinity_offset"][i],
                 ref=None if drv_tit.isnull(ref[i]) else bool(ref[i]), batch=s["rows"][i]["batch"], x=xs[i]) for i in range(n)]
    return dict(kind="dsplot", fn=s["fn"], rows=rows, plot=p, bad=kw.get("show_bad", True), batches=kw.get("show_batches", True),
                xlabel="Analysis number" if s["xvar"] == "none" else s["xvar"], filed=bool(os.path.exists(path) == bool(s["file"])),
                kept=bool(drv_tit.same_frame(before, ds)))


def lossplot(s, d):
    rng = rng_for(s)
    q = drv_sim.titration_losing(dict(n=s["n"], spacing="uneven", start="late", nan="none", temp="constant"), rng)
    n = s["n"]
    T = pd.DataFrame(dict(titrant_mass=q["tm"], pH=q["pH"], dilution_factor=q["am"] / (q["am"] + q["tm"]), dic=q["dic0"] * q["am"] / (q["am"] + q["tm"]),
                          dic_loss=q["dic"], dic_loss_lo=q["dic"] - 5, dic_loss_hi=q["dic"] + 5, fCO2_loss=q["fCO2"],
                          fCO2_loss_lo=q["fCO2"] * 0.9, fCO2_loss_hi=q["fCO2"] * 1.1))
    g = np.arange(0, q["tm"].max(), q["tm"].max() / 40)
    H = pd.DataFrame(dict(titrant_mass=g, pH=np.linspace(8, 3, len(g)), dic=np.linspace(2000, 1500, len(g)), delta_fCO2=np.linspace(100, 9000, len(g))))
    tt = types.SimpleNamespace(titration=T, k_dic_loss=float(rng.uniform(0, 3)), split_pH=float(s["split"]) + 0.01, fCO2_air=float(rng.uniform(300, 500)),
                               _get_dic_loss_hires=lambda: (0, H))
    t0, h0 = T.copy(), H.copy()
    fn = getattr(calk.plot.titration, s["fn"])
    p = observe(lambda **k: fn(tt, **k), s["fn"], bool(rng.random() < 0.5))
    return dict(kind="lossplot", fn=s["fn"], plot=p, tab={k: drv_tit.column(T[k]) for k in T}, k=tt.k_dic_loss, split=tt.split_pH, air=tt.fCO2_air,
                hi=dict(tm=H.titrant_mass.tolist(), pH=H.pH.tolist(), dic=H.dic.tolist(), df=H.delta_fCO2.tolist()),
                kept=bool(drv_tit.same_frame(t0, T) and drv_tit.same_frame(h0, H)))


def c20(s, d):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return {"titplot": titplot, "dsplot": dsplot, "lossplot": lossplot}[s["kind"]](s, d)
