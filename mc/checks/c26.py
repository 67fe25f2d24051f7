"""C26: figures show what is in the file, where it is."""

from __future__ import annotations

import itertools
import math
import os

import numpy as np
from numpy import ma

from mc import ncio
from mc.checks.c25 import close
from mc.core import Out, check

LEVEL = "model_checking"

GAP = {"radar": 5, "lidar": 10, "categorize": 10, "classification": 10, "weather-station": 12, "mwr-single": 10, "mwr-multi": 35, "doppler-lidar-wind": 75, "weather-radar": 20, "mwr-l1c": 10, "mwr": 10, "iwc": 10, "lwc": 10}
HEIGHTS = [150.0, 450.0, 900.0, 1500.0]
ALTITUDE = 100.0
# file type, name, values by level of magnitude, factor, offset, logarithmic, range, zeros are missing
MESH = [
    ("radar", "Zh", (-55.0, -20.0, 8.5, 31.0), 1, 0, False, (-40, 15), False),
    ("categorize", "Tw", (215.0, 251.0, 273.4, 299.0), 1, -273.15, False, (-50, 50), False),
    ("lidar", "beta", (3e-8, 4e-7, 2e-5, 3e-3), 1, 0, True, (1e-7, 1e-4), False),
    ("lwc", "lwc", (0.0, 2e-6, 3e-4, 5e-2), 1, 0, True, (1e-5, 1e-2), True),
    ("doppler-lidar-wind", "uwind", (-60.0, -3.5, 0.0, 12.0), 1, 0, False, (-50, 50), False),
    ("iwc", "iwc_error", (-1.0, 0.5, 4.0, 7.0), 1, 0, False, (0, 5), False),
    ("weather-radar", "width", (1e-3, 0.05, 0.4, 3.0), 1, 0, True, (1e-2, 1e0), False),
    ("categorize", "rh", (0.05, 0.3, 0.75, 1.1), 100, 0, False, (0, 120), False),
]
LINES = [  # file type, name, values, factor, offset, label
    ("weather-station", "rainfall_rate", (0.0, 2e-7, 1.5e-6, 2e-5), 3600000, 0, "mm h$^{-1}$"),
    ("weather-station", "air_pressure", (98000.0, 99500.0, 100100.0, 102000.0), 0.01, 0, "hPa"),
    ("weather-station", "air_temperature", (250.0, 262.5, 273.15, 299.0), 1, -273.15, "°C"),
    ("weather-station", "relative_humidity", (0.05, 0.3, 0.75, 1.0), 100, 0, "%"),
    ("weather-station", "rainfall_amount", (0.0, 0.001, 0.0025, 0.01), 1000, 0, "mm"),
    ("weather-station", "wind_speed", (0.0, 1.5, 7.25, 21.0), 1, 0, "m s$^{-1}$"),
    ("mwr-single", "lwp", (-0.02, 0.0, 0.15, 0.9), 1, 0, "kg m$^{-2}$"),
    ("lidar", "zenith_angle", (0.0, 3.0, 3.2, 5.0), 1, 0, "degree"),
]
UNITS = {"Zh": "dBZ", "Tw": "K", "beta": "sr-1 m-1", "wind_speed": "m s-1", "lwp": "kg m-2", "zenith_angle": "degree", "width": "m s-1", "uwind": "m s-1"}


def picture(path, names, tmp, **options):
    """The saved figure, drawn."""
    import matplotlib

    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    from cloudnetpy.plotting import PlotParameters, generate_figure

    saved = []
    real = Figure.savefig

    def fake(self, name, *a, **k):
        saved.append((str(name), self))

    Figure.savefig = fake
    try:
        dims = generate_figure(path, names, show=False, output_filename=f"{tmp}/fig.png", options=PlotParameters(dpi=40, **options))
        check(len(saved) == 1 and saved[0][0] == f"{tmp}/fig.png", f"saved {[s[0] for s in saved]}")
        check(not plt.get_fignums(), "a figure stays open")
        fig = saved[0][1]
        fig.canvas.draw()
    finally:
        Figure.savefig = real
        plt.close("all")
    check(dims.width > 0 and dims.height > 0, "dimensions")
    return fig


def main_axes(fig, n):
    """The first axes are those of the variables."""
    return fig.axes[:n]


def image(ax):
    """edges of time and height, values (height, time), artist"""
    from matplotlib.collections import QuadMesh
    from matplotlib.image import AxesImage, PcolorImage

    found = [a for a in [*ax.images, *ax.collections, *ax.get_children()] if isinstance(a, (AxesImage, PcolorImage, QuadMesh))]
    found = list(dict.fromkeys(found))
    check(len(found) == 1, f"{len(found)} fields in a panel")
    a = found[0]
    z = ma.masked_invalid(ma.array(a.get_array()))
    if isinstance(a, QuadMesh):
        xy = np.asarray(a.get_coordinates())
        x, y = xy[0, :, 0], xy[:, 0, 1]
        z = z.reshape(len(y) - 1, len(x) - 1)
    elif isinstance(a, PcolorImage):
        x, y = a._Ax, a._Ay
    else:
        x0, x1, y0, y1 = a.get_extent()
        x, y = np.linspace(x0, x1, z.shape[1] + 1), np.linspace(y0, y1, z.shape[0] + 1)
    return np.asarray(x, float), np.asarray(y, float), z, a


def at(im, t, h):
    """Drawn value at a point: a list of one value, two at an edge; [] outside"""
    x, y, z, _ = im
    out = []
    for j in range(len(y) - 1):
        if not min(y[j], y[j + 1]) - 1e-6 <= h <= max(y[j], y[j + 1]) + 1e-6:
            continue
        for i in range(len(x) - 1):
            if min(x[i], x[i + 1]) - 1e-6 <= t <= max(x[i], x[i + 1]) + 1e-6:
                out.append(None if ma.getmaskarray(z)[j, i] else float(z.data[j, i]))
    return out


def hatched(ax):
    """Time and height extents of marked areas"""
    from matplotlib.collections import PolyCollection, QuadMesh

    out = []
    for c in ax.collections:
        if isinstance(c, PolyCollection) and not isinstance(c, QuadMesh) and c.get_hatch():
            for p in c.get_paths():
                v = p.vertices
                out.append((v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max()))
    return out


def flagged(ax):
    """Time extents of veiled areas"""
    from matplotlib.collections import PolyCollection, QuadMesh

    out = []
    for c in ax.collections:
        if isinstance(c, PolyCollection) and not isinstance(c, QuadMesh) and not c.get_hatch():
            out += [(p.vertices[:, 0].min(), p.vertices[:, 0].max()) for p in c.get_paths()]
    return sorted(out)


def l1(path, ftype, times, fields, altitude=ALTITUDE, heights=HEIGHTS, extra=None):
    """fields: name -> values by time (and height), units"""
    var = {
        "time": {"dims": ["time"], "data": times, "attrs": {"units": "hours since 2026-03-07 00:00:00 +00:00"}},
        "altitude": {"data": altitude, "attrs": {"units": "m"}},
    }
    dims = {"time": len(times)}
    if heights is not None:
        var["height"] = {"dims": ["height"], "data": [h + altitude for h in heights], "attrs": {"units": "m"}}
        dims["height"] = len(heights)
    for name, values in (fields | (extra or {})).items():
        two = isinstance(values[0], (list, tuple))
        whole = ftype == "classification" and not two or "status" in name or "classification" in name or "flag" in name
        second = "height"
        if two and (heights is None or len(values[0]) != len(heights)):
            second = "channel"
            dims["channel"] = len(values[0])
        var[name] = {"dims": ["time", second] if two else ["time"], "data": values, "dtype": "i4" if whole and all(isinstance(x, int) for x in np.ravel(np.array(values, object))) else "f8", "fill": None if whole else -999.0,
                     "attrs": {"units": UNITS.get(name, "1"), "long_name": f"Name of {name}"}}
    return ncio.write(path, {"dims": dims, "vars": var, "attrs": {"cloudnet_file_type": ftype, "location": "Granada", "year": "2026", "month": "03", "day": "07", "source": "Some source"}})


def gaps_of(times, limit):
    """Stretches of the day without data"""
    edges = [0.0, *times, 24.0]
    return [(a, b) for a, b in zip(edges, edges[1:]) if b - a > limit]


def slots(limit, kind):
    d = limit * 0.8
    base = [0.0, d, 2 * d, 11.0, 11.0 + d, 24 - d, 24.0] if kind == "edge" else [0.6 * limit, 1.5, 1.5 + d, 1.5 + 2 * d, 11.0, 24 - 1.3 * limit, 24 - 0.7 * limit]
    return base


def values_of(spec, n, m, shift):
    """n x m values with holes"""
    levels = spec[2]
    out = []
    for i in range(n):
        row = [None if (i * 3 + j * 5 + shift) % 7 == 1 else levels[(i + 2 * j + shift) % 4] for j in range(m)]
        out.append([None] * m if (i + shift) % 6 == 5 else row)
    return out


def shown(spec, v):
    """What the figure should say of a value"""
    _, _, _, factor, offset, log, (lo, _), zeros = spec
    if v is None or (zeros and v == 0):
        return None
    v = v * factor + offset
    return math.log10(max(v, lo)) if log else v


def check_mesh(ax, spec, times, values, gap, heights, label, marked=True, max_y=12, span=None):
    """Every value at its place, nothing in gaps."""
    im = image(ax)
    steps = 0
    for i, t in enumerate(times):
        for j, h in enumerate(heights):
            if h > max_y:
                continue
            want = shown(spec, values[i][j])
            got = at(im, t, h)
            steps += 1
            check(got and any(close(g, want, 1e-4 + 1e-5 * abs(want or 0)) for g in got) and (len(got) == 1 or len(got) == 2), f"{label}: {got} drawn at {t} h, {h} km instead of {want}")
    gaps = gaps_of(times, gap / 60)
    for a, b in gaps:
        for t in (a + 0.02, (a + b) / 2, b - 0.02):
            for h in heights:
                if h <= max_y:
                    check(all(g is None for g in at(im, t, h)), f"{label}: {at(im, t, h)} drawn at {t} h, in a gap from {a} to {b}")
    for a, b in zip(times, times[1:]):
        if b - a <= gap / 60:
            i = times.index(a)
            for t, k in ((a + (b - a) * 0.3, i), (a + (b - a) * 0.7, i + 1)):
                for j, h in enumerate(heights):
                    if h <= max_y:
                        want = shown(spec, values[k][j])
                        check(any(close(g, want, 1e-4 + 1e-5 * abs(want or 0)) for g in at(im, t, h)), f"{label}: {at(im, t, h)} drawn at {t} h, {h} km, between profiles; expected {want}")
    marks = [m for m in hatched(ax) if m[2] <= 1e-6]
    top = [m for m in hatched(ax) if m[2] > 1e-6]
    if not marked:
        check(not marks and not top, f"{label}: marked areas {marks} {top}")
        return steps
    check(len(marks) == len(gaps) and all(abs(m[0] - g[0]) < 0.004 and abs(m[1] - g[1]) < 0.004 for m, g in zip(sorted(marks), gaps)), f"{label}: gaps marked {sorted(marks)} instead of {gaps}")
    check(all(m[3] >= max_y - 1e-6 for m in marks), f"{label}: gaps marked only between {[m[2:] for m in marks]}")
    highest = heights[-1]
    if highest < max_y:
        check(len(top) == 1 and abs(top[0][2] - highest) < 0.02 and abs(top[0][3] - max_y) < 1e-6, f"{label}: out of range is {top} instead of {highest} to {max_y}")
    else:
        check(not top, f"{label}: {top} marked as out of range")
    return steps


def frame(ax, label, max_y=12):
    check(tuple(ax.get_xlim()) == (0, 24), f"{label}: time axis {ax.get_xlim()}")
    check(tuple(ax.get_ylim()) == (0, max_y), f"{label}: height axis {ax.get_ylim()}")
    ticks = {round(t, 6): x.get_text() for t, x in zip(ax.get_xticks(), ax.get_xticklabels())}
    check(ticks == {0: "", 4: "04:00", 8: "08:00", 12: "12:00", 16: "16:00", 20: "20:00", 24: ""}, f"{label}: time ticks {ticks}")


# ---------------------------------------------------------------- explorers


def run_gaps(case, tmp):
    """Every pattern of profiles present."""
    spec = next(s for s in MESH if s[0] == case["type"])
    gap = GAP[case["type"]]
    states, steps = [], 0
    every = slots(gap / 60, case["kind"])
    for word in itertools.product((0, 1), repeat=7):
        if sum(word) < 2 or word[:2] != tuple(case["first"]):
            continue
        times = [t for t, w in zip(every, word) if w]
        values = values_of(spec, len(times), 4, len(states) + case["shift"])
        if all(v is None for r in values for v in r):
            values[0][0] = spec[2][1]
        path = l1(f"{tmp}/a.nc", case["type"], times, {spec[1]: values})
        marked = len(states) % 3 != 1
        fig = picture(path, [spec[1]], tmp, mark_data_gaps=marked)
        (ax,) = main_axes(fig, 1)
        label = f"{case['type']} {spec[1]} {word} {case['kind']}"
        steps += check_mesh(ax, spec, times, values, gap, [h / 1000 for h in HEIGHTS], label, marked)
        frame(ax, label)
        states.append(label)
    return Out(states=states, transitions=steps, traces=len(states))


def run_fields(case, tmp):
    """Variables, heights, options, several panels."""
    states, steps = [], 0
    times = [0.05 + 0.15 * k for k in range(6)] + [20.0, 20.1, 20.25]
    for spec in MESH:
        ftype = spec[0]
        gap = GAP[ftype]
        values = values_of(spec, len(times), 4, case["shift"])
        if case.get("all"):
            values = [[spec[2][(i + j) % 4] for j in range(4)] for i in range(len(times))]
        alt = case["altitude"]
        path = l1(f"{tmp}/a.nc", ftype, times, {spec[1]: values}, alt)
        before = ncio.filehash(path)
        fig = picture(path, ["nothing", spec[1]], tmp, plot_above_ground=case["agl"], max_y=case["max_y"], title=case["title"], subtitle=case["title"], show_sources=not case["title"])
        check(ncio.filehash(path) == before, f"{spec[1]}: the file is changed")
        (ax,) = main_axes(fig, 1)
        label = f"{ftype} {spec[1]} {case}"
        heights = [(h + (0 if case["agl"] else alt)) / 1000 for h in HEIGHTS]
        steps += check_mesh(ax, spec, times, values, gap, heights, label, True, case["max_y"])
        frame(ax, label, case["max_y"])
        check(ax.get_ylabel() == f"Height (km {'AGL' if case['agl'] else 'AMSL'})", f"{label}: {ax.get_ylabel()}")
        art = image(ax)[3]
        lo, hi = spec[6]
        check(close(art.norm.vmin, math.log10(lo) if spec[5] else lo, 1e-9) and close(art.norm.vmax, math.log10(hi) if spec[5] else hi, 1e-9), f"{label}: colours from {art.norm.vmin} to {art.norm.vmax}")
        check((ax.get_title() == f"Name of {spec[1]}") == case["title"], f"{label}: title {ax.get_title()}")
        check((fig._suptitle is not None and fig._suptitle.get_text() == "Granada, 7 Mar 2026") == case["title"], f"{label}: subtitle")
        check(any("Some source" in t.get_text() for t in ax.texts) == (not case["title"]), f"{label}: source")
        cbar = fig.axes[1]
        unit = {"Tw": "°C", "relative_humidity": "%", "Zh": "dBZ", "beta": "sr$^{-1}$ m$^{-1}$"}.get(spec[1])
        check(unit is None or cbar.get_ylabel() == unit, f"{label}: unit {cbar.get_ylabel()}")
        if spec[5]:
            ticks = [(t, x.get_text()) for t, x in zip(cbar.get_yticks(), cbar.get_yticklabels())]
            check(len(ticks) > 1 and all(x == f"10$^{{{round(t)}}}$" for t, x in ticks), f"{label}: ticks {ticks}")
        states.append(label)
    return Out(states=states, transitions=steps, traces=len(states))


SEGMENTS = {  # values that are not shown
    "target_classification": (11, [0]), "detection_status": (None, None), "iwc_retrieval_status": (None, None), "lwc_retrieval_status": (None, None), "der_retrieval_status": (None, None),
    "drizzle_retrieval_status": (None, None), "signal_source_status": (None, None), "radar_attenuation_status": (None, None), "ier_retrieval_status": (None, None),
}


def run_segments(case, tmp):
    """Every class in the colour the colour bar gives it."""
    from matplotlib.colors import to_rgba

    from cloudnetpy.plotting.plot_meta import ATTRIBUTES

    name = case["name"]
    meta = ATTRIBUTES["fallback"][name].clabel
    n = len(meta)
    times = [0.02 + 0.1 * k for k in range(n)]
    values = [[(i * case["step"] + j + case["shift"]) % n for j in range(4)] for i in range(n)]
    if case.get("only") is not None:
        values = [[case["only"]] * 4 for _ in range(n)]
        values[0][0] = (case["only"] + 1) % n
    path = l1(f"{tmp}/a.nc", "classification", times, {name: values})
    fig = picture(path, [name], tmp)
    (ax,) = main_axes(fig, 1)
    im = image(ax)
    bar = fig.axes[1]
    labels = {round(t): x.get_text() for t, x in zip(bar.get_yticks(), bar.get_yticklabels())}
    seen = [lab for lab, _ in meta if not lab.startswith("_")]
    check(list(labels.values()) == seen, f"{name}: colour bar {labels}")
    for i, t in enumerate(times):
        for j, h in enumerate(HEIGHTS):
            lab, colour = meta[values[i][j]]
            (got,) = at(im, t, h / 1000)
            if lab.startswith("_"):
                check(got is None, f"{name}: {got} drawn for {lab}")
                continue
            check(got is not None and labels.get(round(got)) == lab, f"{name}: {values[i][j]} ({lab}) is drawn as {got} ({labels.get(round(got)) if got is not None else ''})")
            rgba = im[3].cmap(im[3].norm(got))
            check(np.allclose(rgba, to_rgba(colour), atol=0.01), f"{name}: {lab} is drawn in {rgba} instead of {to_rgba(colour)}")
    return Out(states=[str(case)], transitions=4 * n, traces=1)


def average(t, v, minutes):
    """Moving average over a stretch: the stretch is continued by its end values"""
    if len(v) < 2:
        return list(v)
    steps = sorted(b - a for a, b in zip(t, t[1:]))
    mid = (steps[(len(steps) - 1) // 2] + steps[len(steps) // 2]) / 2
    w = max(1, int(minutes / 60 / mid))
    w += w % 2 == 0
    h = w // 2
    out = []
    for i in range(len(v)):
        win = [v[min(max(k, 0), len(v) - 1)] for k in range(i - h, i + h + 1)]
        out.append(sum(win) / w)
    return out


def stretches(times, ok, gap):
    """Runs of valid values; each is averaged as a whole, and drawn without its gaps"""
    run, out = [], []
    for i, good in enumerate(ok):
        if good:
            run.append(i)
        elif run:
            out.append(run)
            run = []
    return out + ([run] if run else [])


def lines_of(ax):
    """(points, curves): unjoined points and joined curves as lists of (t, v)"""
    points, curves = [], []
    for ln in ax.lines:
        x = np.asarray(ln.get_xdata(), float)
        if len(x) == 2 and tuple(x) == (0.0, 1.0):
            continue  # the zero line
        y = ma.masked_invalid(ma.array(ln.get_ydata(), dtype=float))
        data = [(float(a), None if m else float(b)) for a, b, m in zip(x, y.data, ma.getmaskarray(y))]
        (points if ln.get_linewidth() == 0 or ln.get_linestyle() == "None" else curves).append((data, ln))
    special = {"salmon", "orange", "red"}
    points.sort(key=lambda p: p[1].get_color() in special)  # flagged data last
    return points, curves


def compare_lines(ax, times, want, label, tol=1e-3):
    points, _ = lines_of(ax)
    check(points, f"{label}: no points")
    got = [(t, v) for t, v in points[0][0] if v is not None]
    exp = [(t, v) for t, v in zip(times, want) if v is not None]
    check(len(got) == len(exp) and all(abs(a - c) < 1e-5 and close(b, d, tol * max(1, abs(d)) * 0.1) for (a, b), (c, d) in zip(got, exp)), f"{label}: points {got} instead of {exp}")
    lo, hi = ax.get_ylim()
    check(all(lo - 1e-9 <= v <= hi + 1e-9 for _, v in exp), f"{label}: axis {lo} to {hi} hides {exp}")


def compare_curves(ax, times, runs, label, gap, tol=1e-4):
    """runs: [(indices, averages)]"""
    _, curves = lines_of(ax)
    got = sorted([[p for p in c[0]] for c in curves if c[0]])
    exp = []
    for idx, avg in runs:
        part = []
        for k, i in enumerate(idx):
            if k and times[i] - times[idx[k - 1]] > gap / 60:
                exp.append(part)
                part = []
            part.append((times[i], avg[k]))
        exp.append(part)
    exp = sorted(e for e in exp if e)
    check(len(got) == len(exp), f"{label}: {len(got)} averaged curves instead of {len(exp)}")
    for g, e in zip(got, exp):
        check(len(g) == len(e), f"{label}: curve of {len(g)} points instead of {len(e)}")
        for (a, b), (c, d) in zip(g, e):
            ok = abs(a - c) < 1e-5 and (close(b, d, tol * max(1, abs(d or 0))) if not callable(d) else d(b))
            check(ok, f"{label}: average {b} at {a}; expected {d} at {c}")


def run_lines(case, tmp):
    """Every pattern of missing values and gaps in a series."""
    states, steps = [], 0
    spec = LINES[case["line"]]
    ftype, name, levels, factor, offset, unit = spec
    gap = GAP[ftype]
    for dt, word in itertools.product(case["dts"], itertools.product("xo-", repeat=case["length"])):
        if list(word[:3]) != case["first"] or word.count("x") + word.count("o") < 2 or word.count("-") > 2:
            continue
        every = [3.0 + dt / 60 * k for k in range(len(word))]
        times = [t for t, w in zip(every, word) if w != "-"]
        raw = [levels[(3 * i + len(states)) % 4] if w == "x" else None for i, w in enumerate(w for w in word if w != "-")]
        if all(v is None for v in raw):
            continue
        path = l1(f"{tmp}/a.nc", ftype, times, {name: raw}, heights=None)
        fig = picture(path, [name], tmp)
        (ax,) = main_axes(fig, 1)
        label = f"{name} {dt} {''.join(word)} {raw}"
        want = [None if v is None else v * factor + offset for v in raw]
        compare_lines(ax, times, want, label)
        runs = [(idx, average([times[i] for i in idx], [want[i] for i in idx], 5)) for idx in stretches(times, [v is not None for v in want], gap)]
        compare_curves(ax, times, runs, label, gap)
        check(ax.get_ylabel() == unit, f"{label}: unit {ax.get_ylabel()}")
        marks = sorted(m[:2] for m in hatched(ax))
        gaps = gaps_of(times, gap / 60)
        check(len(marks) == len(gaps) and all(abs(m[0] - g[0]) < 0.004 and abs(m[1] - g[1]) < 0.004 for m, g in zip(marks, gaps)), f"{label}: gaps marked {marks} instead of {gaps}")
        steps += len(times)
        states.append(label)
    return Out(states=states, transitions=steps, traces=len(states))


def run_wind(case, tmp):
    """Averages of wind direction weigh with speed and know the circle."""
    states, steps = [], 0
    times = [5.0 + 6 / 60 * k for k in range(5)]  # three values to an average
    gap = GAP["weather-station"]
    letters = list(itertools.product((1.0, 4.0, None), (5.0, 355.0, 120.0, None)))
    for word in itertools.product(letters, repeat=3):
        if list(word[0]) != case["first"]:
            continue
        seq = [word[0], word[1], word[2], word[1], word[0]]
        speed, direction = [s for s, _ in seq], [d for _, d in seq]
        if all(d is None for d in direction):
            continue
        if not case["thorough"] and sum((letters.index(x) for x in word)) % 3:
            continue
        path = l1(f"{tmp}/a.nc", "weather-station", times, {"wind_direction": direction, "wind_speed": speed}, heights=None)
        fig = picture(path, ["wind_direction"], tmp)
        (ax,) = main_axes(fig, 1)
        label = f"wind {seq}"
        compare_lines(ax, times, direction, label)
        known = [d is not None and s is not None for s, d in seq]
        # without a speed there is no average
        _, curves = lines_of(ax)
        drawn = {}
        for c, _ in curves:
            for t, v in c:
                i = min(range(5), key=lambda k: abs(times[k] - t))
                check(abs(times[i] - t) < 1e-5 and known[i] and i not in drawn, f"{label}: average at {t}")
                drawn[i] = v
        check(sorted(drawn) == [i for i in range(5) if known[i]], f"{label}: averages at {sorted(drawn)}")
        for idx in stretches(times, known, gap):
            t = [times[k] for k in idx]
            u = average(t, [speed[k] * math.cos(math.radians(direction[k])) for k in idx], 15)
            v = average(t, [speed[k] * math.sin(math.radians(direction[k])) for k in idx], 15)
            for k, a, b in zip(idx, u, v):
                if math.hypot(a, b) < 1e-6:
                    continue
                w = math.degrees(math.atan2(b, a)) % 360
                g = drawn[k]
                if g is not None:  # curves break where they cross north
                    check(abs((g - w + 180) % 360 - 180) < 1e-3, f"{label}: average {g} instead of {w}")
        steps += 5
        states.append(label)
    return Out(states=states, transitions=steps, traces=len(states))


def run_flags(case, tmp):
    """Flagged data are marked, and only those."""
    states, steps = [], 0
    times = [6.0 + 0.1 * k for k in range(5)]
    for word in itertools.product((0, 1), repeat=5):
        kind = case["kind"]
        if kind == "lwp":
            raw = [0.1 * (i + 1) for i in range(5)]
            path = l1(f"{tmp}/a.nc", "mwr-single", times, {"lwp": raw, "lwp_quality_flag": [w * 2 for w in word]}, heights=None)
            fig = picture(path, ["lwp"], tmp)
            (ax,) = main_axes(fig, 1)
            points, _ = lines_of(ax)
            marked = sorted(p for data, ln in points if ln.get_color() == "salmon" for p in data if p[1] is not None)
            want = [(t, v) for t, v, w in zip(times, raw, word) if w]
            check(ncio.same([list(p) for p in marked], [list(p) for p in want], 1e-6), f"{kind} {word}: flagged {marked} instead of {want}")
            compare_lines(ax, times, raw, f"{kind} {word}")
            runs = [(idx, average([times[i] for i in idx], [raw[i] for i in idx], 5)) for idx in stretches(times, [not w for w in word], 10)]
            compare_curves(ax, times, runs, f"{kind} {word}", 10)
        elif kind == "tb":
            freq = [22.24, 31.4, 58.0]
            raw = [[100.0 + 10 * i + j for j in range(3)] for i in range(5)]
            for ind in (case["channel"],):
                for pointing in (None, [0, 0, 1, 0, 0]):
                    flags = [[w if j == 1 else 0 for j in range(3)] for w in word]
                    extra = {"quality_flag": flags}
                    if pointing:
                        extra |= {"pointing_flag": pointing, "zenith_angle": [0.0, 4.0, 0.0, 60.0, -6.0]}
                    path = l1(f"{tmp}/a.nc", "mwr-l1c", times, {"tb": raw}, heights=None, extra=extra)
                    import netCDF4

                    with netCDF4.Dataset(path, "a") as nc:
                        nc.createVariable("frequency", "f8", ("channel",))[:] = freq
                    fig = picture(path, [f"tb_{ind}"], tmp)
                    (ax,) = main_axes(fig, 1)
                    bad = [0] * 5 if not pointing else [0, 0, 1, 1, 1]
                    label = f"tb {ind} {word} {pointing}"
                    compare_lines(ax, times, [None if b else r[ind] for r, b in zip(raw, bad)], label)
                    points, _ = lines_of(ax)
                    marked = sorted(p for data, ln in points if ln.get_color() == "salmon" for p in data if p[1] is not None)
                    want = [[t, r[ind]] for t, r, w, b in zip(times, raw, word, bad) if w and ind == 1 and not b]
                    check(ncio.same([list(p) for p in marked], want, 1e-6), f"{label}: flagged {marked} instead of {want}")
                    check(any(f"{freq[ind]:.2f} GHz" in t.get_text() for t in ax.texts), f"{label}: frequency {[t.get_text() for t in ax.texts]}")
                    check(ax.get_title() == f"Name of tb (channel {ind + 1})", f"{label}: {ax.get_title()}")
        elif kind == "profile":
            values = [[270.0 + i + j for j in range(4)] for i in range(5)]
            path = l1(f"{tmp}/a.nc", "mwr-multi", times, {"temperature": values}, extra={"temperature_quality_flag": list(word)})
            fig = picture(path, ["temperature"], tmp)
            ax = fig.axes[0]
            want, run = [], []
            for i, w in enumerate([*word, 0]):
                if w:
                    run.append(i)
                elif run:
                    if len(run) > 1:
                        want.append((times[run[0]], times[run[-1]]))
                    run = []
            got = flagged(ax)
            check(len(got) == len(want) and all(abs(a[0] - b[0]) < 1e-5 and abs(a[1] - b[1]) < 1e-5 for a, b in zip(got, want)), f"{kind} {word}: veiled {got} instead of {want}")
        else:
            for other in range(5):
                status = [other if w else (i * 2) % 5 for i, w in enumerate(word)]
                top = [500.0 + 1000 * i for i in range(5)]
                path = l1(f"{tmp}/a.nc", "classification", times, {"cloud_top_height_agl": top}, heights=None, extra={"cloud_top_height_status": status})
                fig = picture(path, ["cloud_top_height_agl"], tmp)
                (ax,) = main_axes(fig, 1)
                compare_lines(ax, times, [h / 1000 for h in top], f"top {status}")
                points, _ = lines_of(ax)
                by = {ln.get_color(): sorted(p for p in data if p[1] is not None) for data, ln in points[1:]}
                for colour, which in (("orange", (1, 2)), ("red", (3, 4))):
                    want = [[t, h / 1000] for t, h, s in zip(times, top, status) if s in which]
                    check(ncio.same([list(p) for p in by.get(colour, [])], want, 1e-6), f"top {status}: {colour} {by.get(colour)} instead of {want}")
                legend = [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []
                want = ["Suspicious"] * any(s in (1, 2) for s in status) + ["Unreliable"] * any(s in (3, 4) for s in status)
                check(legend == want, f"top {status}: legend {legend} instead of {want}")
                check(ax.get_ylabel() == "Height (km AGL)", "height of cloud top")
        steps += 5
        states.append(f"{kind}{word}")
    return Out(states=states, transitions=steps, traces=len(states))


def run_model(case, tmp):
    """Model files: heights are above ground, empty profiles are gaps."""
    states, steps = [], 0
    step = case["step"]
    times = [step * k for k in range(int(24 / step) + 1)]
    n = len(times)
    spec = ("model", "temperature", (220.0, 250.0, 273.0, 300.0), 1, -273.15, False, (-50, 50), False)
    cf = ("model", "cloud_fraction", (0.0, 0.2, 0.6, 1.0), 1, 0, False, (0, 1), True)
    for empty in case["empty"]:
        for sp in (spec, cf):
            values = [[sp[2][(i + j) % 4] for j in range(4)] for i in range(n)]
            for e in empty:
                values[e % n] = [None] * 4
            var = {
                "time": {"dims": ["time"], "data": times}, "height": {"dims": ["time", "level"], "data": [[h + 8 * ((i % 3) - 1) for h in HEIGHTS] for i in range(n)]},
                "sfc_geopotential": {"dims": ["time"], "data": [981.0 * 2] * n}, sp[1]: {"dims": ["time", "level"], "data": values, "fill": -999.0, "attrs": {"units": "K" if sp is spec else "1", "long_name": "x"}},
            }
            path = ncio.write(f"{tmp}/m.nc", {"dims": {"time": n, "level": 4}, "vars": var, "attrs": {"cloudnet_file_type": "model", "location": "Granada", "year": "2026", "month": "03", "day": "07", "source": "ECMWF"}})
            mean = [sum(h + 8 * ((i % 3) - 1) for i in range(n)) / n for h in HEIGHTS]
            for agl in (True, False):
                fig = picture(path, [sp[1]], tmp, plot_above_ground=agl)
                ax = fig.axes[0]
                im = image(ax)
                label = f"model {step} {empty} {sp[1]} {agl}"
                for i, t in enumerate(times):
                    for j, h in enumerate(mean):
                        h = (h + (0 if agl else 1962 / 9.80665)) / 1000
                        want = shown(sp, values[i][j])
                        got = at(im, t, h)
                        steps += 1
                        check(got or want is None, f"{label}: nothing at {t}, {h}")
                        check(any(close(g, want, 1e-4) for g in got) or (want is None and not got), f"{label}: {got} drawn at {t} h, {h} km instead of {want}")
                states.append(label)
    return Out(states=states, transitions=steps, traces=len(states))


def signature(ax):
    """What a panel shows"""
    from matplotlib.collections import QuadMesh
    from matplotlib.image import AxesImage, PcolorImage

    out = {"lines": [], "texts": sorted(t.get_text() for t in ax.texts), "title": ax.get_title(), "marks": sorted(hatched(ax)), "veils": flagged(ax), "ylim": ax.get_ylim(), "y": ax.get_ylabel()}
    for ln in ax.lines:
        y = ma.masked_invalid(ma.array(ln.get_ydata(), dtype=float))
        out["lines"].append((str(ln.get_color()), np.asarray(ln.get_xdata(), float).tolist(), y.tolist()))
    out["lines"].sort(key=str)
    if any(isinstance(a, (AxesImage, PcolorImage, QuadMesh)) for a in ax.get_children()):
        x, y, z, art = image(ax)
        out["field"] = (x.tolist(), y.tolist(), z.tolist(), art.norm.vmin, art.norm.vmax)
    legend = ax.get_legend()
    out["legend"] = [t.get_text() for t in legend.get_texts()] if legend else []
    return out


def run_panels(case, tmp):
    """A panel shows the same alone and beside others."""
    times = [0.0, 0.1, 0.2, 0.3, 5.0, 5.1, 5.2, 23.9, 24.0]
    n = len(times)
    cycle = lambda *v, k=0: [v[(i + k) % len(v)] for i in range(n)]
    grid = lambda *v: [[v[(i + j) % len(v)] for j in range(4)] for i in range(n)]
    fields = {
        "classification": {
            "cloud_top_height_agl": cycle(500.0, 2500.0, None, 1500.0), "cloud_base_height_agl": cycle(100.0, 300.0, 700.0, None),
            "target_classification": grid(0, 1, 2, 3, 4, 5), "signal_source_status": grid(0, 1, 2, 3),
        },
        "categorize": {"Z": grid(-20.0, None, 5.0), "beta": grid(1e-6, 3e-5, None), "rainfall_rate": cycle(0.0, 1e-6, None, 2e-6), "lwp": cycle(0.1, None, 0.3)},
        "mwr-single": {"lwp": cycle(0.1, 0.2, None, 0.4), "iwv": cycle(10.0, None, 12.0, 13.0), "stability": cycle(1.0, 2.0), "temperature": grid(270.0, None, 280.0)},
    }[case["type"]]
    extra = {"cloud_top_height_status": cycle(0, 1, 2, 3, 4), "rain_detected": cycle(0, 1, 1)} if case["type"] == "classification" else {}
    if case["type"] == "mwr-single":
        extra = {"lwp_quality_flag": cycle(0, 0, 1), "iwv_quality_flag": cycle(0, 2, 0, 0), "temperature_quality_flag": [0, 1, 1, 0, 0, 1, 1, 1, 0]}
    path = l1(f"{tmp}/a.nc", case["type"], times, fields, extra=extra)
    names = [n for n in fields if n != "stability"]
    alone = {}
    for n_ in names:
        alone[n_] = signature(picture(path, [n_], tmp).axes[0])
    states = []
    for r in range(2, case["most"] + 1):
        for perm in itertools.permutations(names, r):
            fig = picture(path, [*perm[:1], "nothing", *perm[1:]], tmp)
            for k, n_ in enumerate(perm):
                got = signature(fig.axes[k])
                for part, want in alone[n_].items():
                    check(ncio.same(got.get(part), want, 1e-9) if part in ("field", "marks") else str(got.get(part)) == str(want), f"{n_} of {perm}: {part} is {got.get(part)} instead of {want} when alone")
            states.append(str(perm))
    return Out(states=states, transitions=len(states), traces=len(states))


def run_refuse(case, tmp):
    from cloudnetpy.exceptions import PlottingError

    times = [1.0, 1.1, 1.2]
    some, none = [[1.0] * 4] * 3, [[None] * 4] * 3
    path = l1(f"{tmp}/a.nc", "radar", times, {"Zh": some, "v": none, "ldr": some, "lwp": [None] * 3})
    for names, kw, ok in (
        (["Zh"], {}, True), (["nope", "Zh"], {}, True), (["nope"], {}, False), ([], {}, False), (["v"], {}, True), (["v"], {"raise_on_empty": True}, False), (["Zh", "v"], {"raise_on_empty": True}, False),
        (["Zh", "ldr"], {"raise_on_empty": True}, True), (["lwp"], {}, True), (["lwp"], {"raise_on_empty": True}, False), (["Zh", "v", "ldr", "lwp"], {}, True),
    ):
        import matplotlib.pyplot as plt

        try:
            fig = picture(path, names, tmp, **kw)
        except PlottingError:
            check(not ok, f"{names} {kw} is refused")
            check(not plt.get_fignums(), "a refused figure stays open")
            check(not os.path.exists(f"{tmp}/fig.png"), "a refused figure leaves a file")
        else:
            check(ok, f"{names} {kw} is accepted")
            there = [n for n in names if n != "nope"]
            titles = [ax.get_title() for ax in fig.axes if ax.get_title()]
            check(titles == [f"Name of {n}" for n in there], f"{names}: {titles}")
    return None


def run(ctx):
    ctx.assume("times lie within the day and heights increase; contour lines are not judged; smoothed microwave profiles are not judged")
    pairs = list(itertools.product((0, 1), repeat=2))
    types = ["radar", "lidar", "doppler-lidar-wind", "weather-radar", "categorize", "mwr-multi"] if ctx.thorough else ["radar", "lidar", "doppler-lidar-wind"]
    ctx.explore("gaps", run_gaps, [{"type": t, "kind": k, "first": f, "shift": s} for t in types for k in ("edge", "inner") for f in pairs for s in ((0, 1) if ctx.thorough else (0,))], chunk=1, bound="every set of at least 2 of 7 profiles, near the ends of the day and not, for file types of different tolerance")
    cases = [{"shift": s, "agl": a, "altitude": z, "max_y": m, "title": t, "all": s == 0} for s, a, z, m, t in itertools.product(range(3), (True, False), (0.0, 100.0), (12, 1, 0.5), (True, False))]
    ctx.explore("fields", run_fields, cases if ctx.thorough else [c for i, c in enumerate(cases) if i % 3 == (i // 3) % 3], chunk=1, bound="8 variables x 3 patterns x heights above ground or sea x 2 altitudes x 3 heights of the figure x labels")
    cases = []
    from cloudnetpy.plotting.plot_meta import ATTRIBUTES

    for name in SEGMENTS:
        if name not in ATTRIBUTES["fallback"]:
            continue
        n = len(ATTRIBUTES["fallback"][name].clabel)
        cases += [{"name": name, "step": a, "shift": b} for a in (1, 2, 3) for b in range(2)] + [{"name": name, "step": 1, "shift": 0, "only": k} for k in range(n)]
    ctx.explore("segments", run_segments, cases, chunk=4, bound="all classes of every classified variable, in several arrangements, and each alone")
    firsts = [list(w) for w in itertools.product("xo-", repeat=3)]
    cases = [{"line": k, "first": f, "dts": [(1, 3, 8)[(k + (i if not ctx.thorough else 0)) % 3]], "length": 7} for k in range(len(LINES)) for i, f in enumerate(firsts) if f.count("-") < 3 and (ctx.thorough or i % len(LINES) == k)]
    ctx.explore("lines", run_lines, cases, chunk=1, bound="sequences of 7 values, missing values and missing profiles (at most 2), 8 variables (quick: each takes a share of the sequences), 3 sampling intervals")
    letters = [list(x) for x in itertools.product((1.0, 4.0, None), (5.0, 355.0, 120.0, None))]
    ctx.explore("wind", run_wind, [{"first": a, "thorough": ctx.thorough} for a in letters], chunk=1, bound="sequences of 3 winds of 3 speeds and 4 directions (quick: a third of them), mirrored")
    ctx.explore("flags", run_flags, [{"kind": k} for k in ("lwp", "profile", "top")] + [{"kind": "tb", "channel": k} for k in range(3)], chunk=1, bound="every pattern of flags over 5 profiles, 4 kinds of figure")
    sets = [(), (0,), (3,), (3, 4), (-1,), (0, 1, 2), (-2, -1), (2, 5)]
    ctx.explore("model", run_model, [{"step": s, "empty": [e]} for s in (1.0, 3.0) for e in sets], chunk=1, bound="2 resolutions x 8 patterns of empty profiles x 2 variables x heights above ground or sea")
    ctx.explore("panels", run_panels, [{"type": t, "most": 4 if ctx.thorough else 3} for t in ("classification", "categorize", "mwr-single")], chunk=1, bound="every ordered choice of 2 to 3 (4) of 4 variables, 3 file types, against each alone")
    ctx.explore("refuse", run_refuse, [{}], chunk=1, bound="missing and empty variables")
