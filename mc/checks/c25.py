"""C25: level 3 statistics and figures say what the file says."""

from __future__ import annotations

import itertools
import math
import os
import re

import numpy as np
from numpy import ma

from mc import ncio
from mc.core import Out, check

LEVEL = "model_checking"

M = {"-": None, "a": 0.1, "b": 0.3, "c": 0.85}
O = {"-": None, "n": math.nan, "a": 0.12, "b": 0.3, "c": 0.6}


# ---------------------------------------------------------------- reference (cells: (model, observation), None if missing)


def used(cells):
    """Model values below every observation do not count."""
    obs = [o for _, o in cells if o is not None]
    low = min(obs) if obs else -math.inf
    return [(None if m is None or m < low else m, o) for m, o in cells]


def error(cells, relative):
    return [None if m is None or o is None else (m - o) / o * 100 if relative else (o - m) * 100 for m, o in used(cells)]


def area(cells):
    u = used(cells)
    some = sum(m is not None or o is not None for m, o in u)
    both = sum(m is not None and o is not None for m, o in u)
    return both / some * 100 if some else 0.0


def classes(cells):
    return [(m is not None) + 2 * (o is not None) for m, o in used(cells)]  # 0 none, 1 model, 2 observation, 3 both


def hist(cells, digits):
    m = [round(m, digits) for m, _ in cells if m is not None]
    o = [round(o, digits) for _, o in cells if o is not None]
    return m, o


def mean(xs):
    xs = [x for x in xs if x is not None]
    return sum(xs) / len(xs) if xs else None


def median(xs):
    xs = sorted(xs)
    n = len(xs)
    return (xs[(n - 1) // 2] + xs[n // 2]) / 2


def close(a, b, tol):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= tol


def flat(arr):
    """Values with None for missing"""
    a = ma.masked_invalid(ma.array(arr, dtype=float)).ravel()
    return [None if m else x for x, m in zip(a.data.tolist(), ma.getmaskarray(a).tolist())]


# ---------------------------------------------------------------- statistics


def arrays(word, shape):
    m = [M[a] for a, _ in word]
    o = [O[b] for _, b in word]

    def arr(v):
        a = np.array([0.5 if x is None else x for x in v]).reshape(shape)
        return ma.array(a, mask=np.array([x is None for x in v]).reshape(shape)) if None in v else ma.array(a)

    cells = [(x, None if y is None or math.isnan(y) else y) for x, y in zip(m, o)]
    return arr(m), arr(o), cells


def run_stats(case, tmp):
    """Every statistic of every small pair of fields."""
    from cloudnetpy.model_evaluation.statistics.statistical_methods import DayStatistics

    states, steps = [], 0
    letters = [tuple(x) for x in case["letters"]]
    shape = (2, 2)
    for rest in itertools.product(letters, repeat=case.get("n", 4) - len(case["first"])):
        word = [tuple(x) for x in case["first"]] + list(rest)
        shape = (2, len(word) // 2)
        obs_any = any(c[1] is not None for c in arrays(word, shape)[2])
        for product in ("cf", "iwc"):
            for method in ("error", "aerror", "area", "hist", "vertical"):
                if method == "hist" and not obs_any or method != "hist" and product == "iwc":
                    continue
                m, o, cells = arrays(word, shape)
                s = DayStatistics(method, [product, "ECMWF", "Title"], m, o)
                label = f"{method} {product} {word}"
                steps += 1
                if method in ("error", "aerror"):
                    got, want = flat(s.model_stat), error(cells, method == "error")
                    check(len(got) == len(want) and all(close(a, b, 0.0051) for a, b in zip(got, want)), f"{label}: {got} instead of {want}")
                elif method == "area":
                    check(close(float(s.model_stat), area(cells), 0.0051), f"{label}: {s.model_stat} instead of {area(cells)}")
                elif method == "hist":
                    wm, wo = hist(cells, 1 if product == "cf" else 6)
                    wm = [min(x, max(wo) if max(wo) > min(wo) else max(wo) + 0.5) for x in wm]
                    check(ncio.same(sorted(flat(s.model_stat)), sorted(wm), 1e-9), f"{label}: {s.model_stat} instead of {wm}")
                    check(ncio.same(sorted(flat(s.observation_stat)), sorted(wo), 1e-9), f"{label}: {s.observation_stat} instead of {wo}")
                else:
                    n = shape[1]
                    for got, k in ((s.model_stat, 0), (s.observation_stat, 1)):
                        want = [mean([cells[t * n + i][k] for t in range(shape[0])]) for i in range(n)]
                        check(ncio.same(flat(got), want, 1e-9), f"{label}: profile {got} instead of {want}")
                check(s.title == (("ECMWF", "Title") if method in ("hist", "vertical") else "Title vs ECMWF"), f"{label}: title {s.title}")
        states.append("".join(a + b for a, b in word))
    return Out(states=states, transitions=steps, traces=len(states))


# ---------------------------------------------------------------- figures


PATTERNS = {  # of 12 cells; 0 missing
    "full": "121312321132", "holes": "102130201302", "low": "111100110101", "high": "333033003303", "edge": "300000000003", "left": "121200001100", "none": "000000000000",
    "right": "000021210021", "one": "000000200000",
}
VALUES = {"cf": (0.08, 0.33, 0.82), "lwc": (1.2e-5, 3e-4, 4e-3), "iwc": (3e-7, 5e-6, 6e-4)}
TINY = {"cf": -0.1, "lwc": 9e-6, "iwc": 9e-8}  # shown as missing
TIMES, HEIGHTS = [1.0, 6.0, 17.0], [200.0, 600.0, 1500.0, 4000.0]


def field(product, pattern, shift):
    """Cells of a field: (written, shown)"""
    values = []
    for i, c in enumerate(PATTERNS[pattern]):
        if c == "0":
            values.append([None, 0.0, TINY[product]][(i + shift) % 3])
        else:
            values.append(VALUES[product][int(c) - 1] * (1 + 0.04 * ((i + shift) % 5)))
    return values, [v if c != "0" else None for v, c in zip(values, PATTERNS[pattern])]


def level3(path, product, fields):
    dims = {"time": 3, "level": 4}
    var = {
        "time": {"dims": ["time"], "data": TIMES}, "model_height": {"dims": ["time", "level"], "data": [[h + 10 * t for h in HEIGHTS] for t in range(3)]},
        "height": {"dims": ["level"], "data": HEIGHTS},
    }
    for name, values in fields.items():
        var[name] = {"dims": ["time", "level"], "data": [values[4 * t : 4 * t + 4] for t in range(3)], "fill": -999.0}
    return ncio.write(path, {"dims": dims, "vars": var, "attrs": {"model_id": "ecmwf", "model_name": "ECMWF IFS", "year": "2026", "month": "03", "day": "07", "location": "Palaiseau"}})


def draw(path, product, tmp, **kwargs):
    """The figures that get saved: [(file name, figure)]"""
    import matplotlib

    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    from cloudnetpy.model_evaluation.plotting import plotting

    saved = []
    real = Figure.savefig

    def fake(self, name, *a, **k):
        saved.append((os.path.basename(str(name)), self))

    Figure.savefig = fake
    try:
        dims = plotting.generate_L3_day_plots(path, product, save_path=f"{tmp}/", **kwargs)
        for _, fig in saved:
            fig.canvas.draw()
    finally:
        Figure.savefig = real
        plt.close("all")
    check(len(dims) == len(saved), f"{len(saved)} figures, dimensions of {len(dims)}")
    return saved


def panels(fig):
    """Axes with a title, in order"""
    return [ax for ax in fig.axes if ax.get_title()]


def mesh(ax):
    from matplotlib.collections import QuadMesh

    found = [c for c in ax.collections if isinstance(c, QuadMesh)]
    check(len(found) == 1, f"{len(found)} fields in a panel")
    return found[0]


def cells_of(m):
    """[(value, corners)] of a mesh"""
    xy = np.asarray(m.get_coordinates())
    val = ma.masked_invalid(ma.array(m.get_array())).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    out = []
    for i in range(val.shape[0]):
        for j in range(val.shape[1]):
            quad = xy[i : i + 2, j : j + 2].reshape(-1, 2)
            out.append(((None if ma.getmaskarray(val)[i, j] else float(val.data[i, j])), quad.min(0), quad.max(0), (i, j)))
    return out


def locate(m, time, height):
    """Values of the cells of a mesh around a point"""
    out = []
    for v, lo, hi, ij in cells_of(m):
        if lo[0] - 1e-9 <= time <= hi[0] + 1e-9 and lo[1] - 1e-9 <= height <= hi[1] + 1e-9:
            out.append((v, ij))
    return out


def grid():
    return [(t, (h + 10 * i) / 1000) for i, t in enumerate(TIMES) for h in HEIGHTS]


def has_text(ax, pattern):
    for t in ax.texts:
        if (m := re.search(pattern, t.get_text())) is not None:
            return m
    return None


def near_mesh(ax, want, label, tol):
    """Every value is drawn where it belongs."""
    m = mesh(ax)
    for (t, h), w in zip(grid(), want):
        found = locate(m, t, h)
        check(found and all(close(v, w, tol) for v, _ in found[:1] if len(found) == 1) and any(close(v, w, tol) for v, _ in found), f"{label}: {[v for v, _ in found]} drawn at {t}, {h}; expected {w}")


def run_group(case, tmp):
    product, states = case["product"], []
    fields = {k: field(product, p, i) for i, (k, p) in enumerate(case["fields"].items())}
    path = level3(f"{tmp}/l3.nc", product, {k: v[0] for k, v in fields.items()})
    before = ncio.filehash(path)
    for advection in (True, False):
        figs = draw(path, product, tmp, include_advection=advection, title=True)
        names = [[n for n in fields if "adv" not in n], [n for n in fields if "adv" in n or n.startswith("model")]]
        names = names if advection else names[:1]
        check([f for f, _ in figs] == [f"20260307_{product}{s}_ecmwf_group.png" for s in (("", "_adv") if advection else ("",))], f"saved {[f for f, _ in figs]}")
        for (fname, fig), ns in zip(figs, names):
            ps = panels(fig)
            check(len(ps) == len(ns), f"{fname}: {len(ps)} panels of {ns}")
            for ax, n in zip(ps, ns):
                title = ax.get_title()
                check(("ECMWF IFS" in title) == n.startswith("model"), f"{fname}: {n} is called {title}")
                if product == "cf" and not n.startswith("model"):
                    check(("Volume" in title) == ("_V" in n) and ("Area" in title) == ("_A" in n), f"{fname}: {n} is called {title}")
                check((has_text(ax, "advection") is not None) == ("adv" in n), f"{fname}: advection note of {n}")
                want = [None if v is None else v if product == "cf" else math.log10(v) for v in fields[n][1]]
                near_mesh(ax, want, f"{fname} {n} {case['fields'][n]}", 1e-4)
                states.append(f"{product}{n}{case['fields'][n]}{advection}")
            check("Palaiseau, 7 Mar 2026" in fig.get_suptitle(), f"{fname}: {fig.get_suptitle()}")
    check(ncio.filehash(path) == before, "the file is changed")
    return Out(states=states, transitions=12 * len(states), traces=2)


def run_statistic(case, tmp):
    product, states = case["product"], []
    fields = {k: field(product, p, i) for i, (k, p) in enumerate(case["fields"].items())}
    path = level3(f"{tmp}/l3.nc", product, {k: v[0] for k, v in fields.items()})
    stats = tuple(case["stats"])
    figs = draw(path, product, tmp, fig_type="statistic", stats=stats, include_advection=True)
    std = [n for n in fields if "adv" not in n and not n.startswith("model")]
    adv = [n for n in fields if "adv" in n]
    want_names = [(ns, s) for ns in (std, adv) for s in stats]
    check([f for f, _ in figs] == [f"20260307_{ns[-1]}_{s}_ecmwf.png" for ns, s in want_names], f"saved {[f for f, _ in figs]}")
    model = fields[f"model_{product}"][1]
    for (fname, fig), (ns, stat) in zip(figs, want_names):
        ps = panels(fig)
        check(len(ps) == len(ns), f"{fname}: {len(ps)} panels of {ns}")
        for ax, n in zip(ps, ns):
            label = f"{fname} {n} {case['fields']}"
            title = ax.get_title()
            check(("dvection" in title) == ("adv" in n), f"{label}: called {title}")
            if product == "cf":
                check(("volume" in title) == ("_V" in n) and ("area" in title) == ("_A" in n), f"{label}: called {title}")
            cells = list(zip(model, fields[n][1]))
            if stat == "error":
                want = error(cells, product != "cf")
                got = cells_of(mesh(ax))
                shape = (max(g[3][0] for g in got) + 1, max(g[3][1] for g in got) + 1)
                if shape == (3, 4):
                    near_mesh(ax, want, label, 0.0051)
                else:
                    check(shape == (2, 3), f"{label}: errors of shape {shape}")
                    for v, lo, hi, (i, j) in got:
                        check(close(v, want[4 * i + j], 0.0051), f"{label}: error {v} instead of {want[4 * i + j]}")
                        check(abs(lo[0] - TIMES[i]) < 1e-6 and abs(hi[0] - TIMES[i + 1]) < 1e-6 and lo[1] <= grid()[4 * i + j][1] + 1e-6 <= hi[1], f"{label}: error drawn at {lo} to {hi}")
                text = has_text(ax, rf"Median {'absolute' if product == 'cf' else 'relative'} error: (\S+) %")
                want = [w for w in want if w is not None]
                check(text and close(float(text[1]), median(want), 0.011), f"{label}: {text and text[0]} instead of {median(want)}")
            elif stat == "area":
                text = has_text(ax, r"Common area: (\S+) %")
                check(text and close(float(text[1]), area(cells), 0.0051), f"{label}: {text and text[0]} instead of {area(cells)}")
                m = mesh(ax)
                rgba = m.get_facecolors().reshape(-1, 4)
                legend = {t.get_text(): tuple(p.get_facecolor()) for t, p in zip(ax.get_legend().get_texts(), ax.get_legend().get_patches())}
                colours = {0: (1, 1, 1, 1), 1: legend["Model"], 2: legend["Observation"], 3: legend["Common"]}
                ncol = max(c[3][1] for c in cells_of(m)) + 1
                for (t, h), k in zip(grid(), classes(cells)):
                    found = locate(m, t, h)
                    check(found, f"{label}: nothing drawn at {t}, {h}")
                    i, j = found[0][1]
                    ok = [np.allclose(rgba[a * ncol + b], colours[k], atol=0.02) for _, (a, b) in found]
                    check(any(ok), f"{label}: colour {rgba[i * ncol + j]} at {t}, {h}; expected {('none', 'model', 'observation', 'both')[k]} {colours[k]}")
            elif stat == "hist":
                wm, wo = hist(cells, 1 if product == "cf" else 6)
                check(len(ax.containers) == 2, f"{label}: {len(ax.containers)} histograms")
                for bars, values in zip(ax.containers, (wm, wo)):
                    edges = [(b.get_x(), b.get_x() + b.get_width(), b.get_height()) for b in bars]
                    top = edges[-1][1]
                    values = [min(v, top) for v in values if v >= edges[0][0] - 1e-12]
                    total = len(wm) if bars is ax.containers[0] else len(wo)
                    for k, (a, b, h) in enumerate(edges):
                        eps = 1e-6 * (top - edges[0][0])
                        sure = sum(a + eps < v < b - eps for v in values)
                        maybe = sum(a - eps < v < b + eps for v in values)
                        check(total == 0 or sure / total - 1e-9 <= h <= maybe / total + 1e-9, f"{label}: {h} of values between {a} and {b}; expected {sure / total} to {maybe / total}")
            else:
                lines = {ln.get_label(): ln for ln in ax.lines}
                for key, k in (("ECMWF IFS", 0), ("Observation", 1)):
                    want = [mean([cells[4 * t + i][k] for t in range(3)]) for i in range(4)]
                    got = flat(lines[key].get_xdata())
                    check(ncio.same(got, want, 1e-6), f"{label}: profile of {key} {got} instead of {want}")
                    check(all(abs(y - h) <= 0.021 for y, h in zip(flat(lines[key].get_ydata()), [h / 1000 for h in HEIGHTS])), f"{label}: profile heights")
            states.append(f"{product}{n}{stat}{case['fields']}")
    return Out(states=states, transitions=12 * len(states), traces=len(figs))


def run_refuse(case, tmp):
    path = level3(f"{tmp}/l3.nc", "cf", {k: field("cf", "full", 0)[0] for k in ("model_cf", "cf_V")})
    for bad in ("single", "", "Group"):
        try:
            draw(path, "cf", tmp, fig_type=bad)
        except ValueError:
            pass
        else:
            check(False, f"figure type {bad!r} is accepted")
    for names in (["cf_V"], ["model_cf"], ["cf_V", "model_cf"]):
        figs = draw(path, "cf", tmp, var_list=list(names), include_advection=False)
        check(len(figs) == 1 and len(panels(figs[0][1])) == len(names), f"{names}: {len(figs)} figures")
    return None


def overlap(model, obs):
    """Some cell is in both and counts"""
    a = field("cf", model, 0)[1]
    return any(x is not None for x in error(list(zip(a, field("cf", obs, 1)[1])), False)) and any(x is not None for x in error(list(zip(a, field("cf", obs, 2)[1])), False))


def cases_figures(kind, thorough):
    out = []
    models = [p for p in PATTERNS if p != "none"] if thorough else ["full", "holes", "low", "edge", "left"]
    others = [p for p in PATTERNS if p != "none"] if thorough else ["full", "holes", "high", "left", "right"]
    for m, a, b in itertools.product(models, others, others):
        if kind == "statistic" and not (overlap(m, a) and overlap(m, b)):
            continue
        if a == b and not thorough:
            continue
        out.append({"product": "cf", "fields": {"model_cf": m, "cf_V": a, "cf_A": b, "cf_V_adv": b, "cf_A_adv": a}})
    for p, m, a in itertools.product(("lwc", "iwc"), models, others):
        if kind == "statistic" and not overlap(m, a):
            continue
        out.append({"product": p, "fields": {f"model_{p}": m, p: a, f"{p}_adv": "full" if a != "full" else "holes"}})
    return out


def run(ctx):
    ctx.assume("every comparison has a cell with both values; heights are never missing")
    letters = list(itertools.product(*((M, O) if ctx.thorough else ("-ac", "-nac"))))
    ctx.explore("stats", run_stats, [{"letters": letters, "first": [a, b]} for a in letters for b in letters] + ([{"letters": letters, "first": [a, b, ("b", "b")], "n": 6} for a in letters for b in letters] if ctx.thorough else []), chunk=4, bound="all pairs of 2 x 2 fields with 3 (4) model values and 4 (5) observations (missing, NaN, small to large), all statistics")
    stat = cases_figures("statistic", ctx.thorough)
    if not ctx.thorough:
        stat = [c | {"stats": s} for c in stat for s in (["error", "area"], )] + [c | {"stats": ["hist", "vertical"]} for c in stat[::3]]
    else:
        stat = [c | {"stats": ["error", "area", "hist", "vertical"]} for c in stat]
    ctx.explore("statistic figures", run_statistic, stat, chunk=1, bound="every combination of patterns of missing values in the model and two observations, three products")
    ctx.explore("group figures", run_group, cases_figures("group", ctx.thorough)[:: 1 if ctx.thorough else 2], chunk=1, bound="every combination of patterns of missing values in the model and the observations, three products")
    ctx.explore("refuse", run_refuse, [{}], chunk=1, bound="figure types and variable lists")
