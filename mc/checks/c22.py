"""C22: level 3 files: observations averaged onto the grid of a forecast model."""

from __future__ import annotations

import gc
import itertools
import math
import os
import uuid as uuidlib

import netCDF4
import numpy as np
from numpy import ma
from scipy import stats

from mc import ncio
from mc.core import Out, check, untuple

LEVEL = "model_checking"
RS = 287.058
DAY = {"year": "2020", "month": "03", "day": "07"}
UUID_OBS = "00000000-0000-4000-8000-000000000001"
UUID_MODEL = "00000000-0000-4000-8000-000000000002"
PROCESS = "process_L3_day_product"


def process(*args, **kwargs):
    from cloudnetpy.model_evaluation.products import product_resampling

    return product_resampling.process_L3_day_product(*args, **kwargs)


def model_file(path, times, heights, fields, res=9.0, wind=None, attrs=None, drop=(), extra=None):
    """fields: name -> (time, level) array; missing values masked."""
    heights = np.asarray(heights, float)
    shape = heights.shape
    base = {
        "cloud_fraction": np.full(shape, 0.5), "qi": np.full(shape, 1e-5), "ql": np.zeros(shape), "temperature": np.full(shape, 250.0),
        "pressure": np.full(shape, 5e4), "uwind": np.full(shape, 3.0), "vwind": np.full(shape, 4.0),
    }
    if wind is not None:
        base["uwind"], base["vwind"] = wind
    base |= fields
    spec = {
        "dims": {"time": shape[0], "level": shape[1]},
        "vars": {
            "time": {"dims": ("time",), "data": np.array(times, float), "attrs": {"units": "hours since 2020-03-07 00:00:00 +00:00"}},
            "level": {"dims": ("level",), "data": np.arange(shape[1], dtype=float)},
            "latitude": {"data": np.array(50.0)}, "longitude": {"data": np.array(8.0)},
            "horizontal_resolution": {"data": np.array(res)},
            "height": {"dims": ("time", "level"), "data": heights, "attrs": {"units": "m"}},
            "forecast_time": {"dims": ("time",), "data": np.arange(shape[0]) + 12.0},
        } | {k: {"dims": ("time", "level"), "data": ma.array(v)} for k, v in base.items()},
        "attrs": DAY | {"location": "Model Town", "file_uuid": UUID_MODEL, "history": "2020-03-08 00:00:00 +00:00 - model file created", "source": "Some model"} | (attrs or {}),
    }
    spec["vars"] |= extra or {}
    for k in drop:
        spec["vars"].pop(k)
    return ncio.write(path, spec)


def obs_file(path, times, heights, altitude, fields, freq=35.5, sens=None, attrs=None, drop=()):
    """heights: above ground."""
    times, heights = np.asarray(times, float), np.asarray(heights, float)
    spec = {
        "dims": {"time": len(times), "height": len(heights)},
        "vars": {
            "time": {"dims": ("time",), "data": times, "attrs": {"units": "hours since 2020-03-07 00:00:00 +00:00"}},
            "height": {"dims": ("height",), "data": heights + altitude, "attrs": {"units": "m"}},
            "altitude": {"data": np.array(float(altitude)), "attrs": {"units": "m"}},
            "latitude": {"data": np.array(50.0)}, "longitude": {"data": np.array(8.0)},
        },
        "attrs": DAY | {"location": "Site", "file_uuid": UUID_OBS, "history": "2020-03-08 01:00:00 +00:00 - product created", "source_instrument_pids": "https://pid/1\nhttps://pid/2"} | (attrs or {}),
    }
    if freq is not None:
        spec["vars"]["radar_frequency"] = {"data": np.array(freq)}
    if sens is not None:
        spec["vars"]["Z_sensitivity"] = {"dims": ("height",), "data": ma.array(sens)}
    for k, v in fields.items():
        spec["vars"][k] = {"dims": ("time", "height"), "data": ma.array(v), "dtype": "i4" if v.dtype.kind in "iu" else "f8"}
    for k in drop:
        spec["vars"].pop(k)
    return ncio.write(path, spec)


def read(path):
    with netCDF4.Dataset(path) as nc:
        return {k: ma.array(v[:]) for k, v in nc.variables.items()}


def edges_of(levels):
    mid = [(a + b) / 2 for a, b in itertools.pairwise(levels)]
    return [2 * levels[0] - levels[1], *mid, 2 * levels[-1] - levels[-2]]


def windows(mtimes, t):
    step = mtimes[1] - mtimes[0]
    return [np.flatnonzero((t >= x - step / 2) & (t < x + step / 2)) for x in mtimes]


def grid_mean(kind, obs, obs_ok, ti, hi):
    """Mean over the given profiles and gates, None without observations."""
    if len(ti) == 0 or len(hi) == 0:
        return None
    cut, ok = obs[np.ix_(ti, hi)], obs_ok[np.ix_(ti, hi)]
    if not ok.any():
        return None
    if kind == "A":
        return float(np.mean([bool((cut[i] > 0).any()) for i in range(len(ti)) if ok[i].any()]))
    return float(cut[ok].mean())


def compare(where, got, want, tol=2e-5):
    """want: value, None (missing) or "?"."""
    n = 0
    for idx in np.ndindex(got.shape):
        w = want[idx]
        if isinstance(w, str):
            continue
        n += 1
        missing = bool(ma.getmaskarray(got)[idx])
        if w is None:
            check(missing, lambda: f"{where}{idx}: is {got[idx]}, but there is nothing to say")
        else:
            check(not missing, lambda: f"{where}{idx}: is missing, expected {w}")
            check(abs(float(got[idx]) - w) <= tol * max(abs(w), 1e-12), lambda: f"{where}{idx}: is {float(got[idx])}, expected {w}")
    return n


# ---------------------------------------------------------------- windows

TIMES = {"hourly": [0, 1, 2, 3], "3h": [0, 3], "half": [0.5, 1.5, 2.5, 3.5], "late": [20, 21, 22, 23, 24]}
LEVELS = {
    "stretched": [[10, 100, 300, 800, 2000, 23000]],
    "moving": [[20, 130, 310, 790, 2100, 21900], [30, 110, 330, 810, 1900, 22010], [25, 150, 350, 700, 2000, 21950]],
    "two": [[50, 500]],
    "high": [[90, 190, 12000, 21999, 22000, 40000]],
}
GATES = [55.0, 90.0, 150.0, 210.0, 500.0, 640.0, 1300.0, 1800.0, 10000.0]
# resolution 9 km: masked; 5 m/s: 1800 s, 50 m/s: 180 s, 1.5 m/s and less: capped to 1 h; 3.1 m/s: 2903 s
WINDS = [(None, None), (3.0, 4.0), (-30.0, 40.0), (0.0, 0.9), (-3.1, 0.0), (0.0, -1.5)]


def setup(case):
    mt = TIMES[case["times"]]
    lev = LEVELS[case["levels"]]
    heights = np.array([lev[i % len(lev)] for i in range(len(mt))], float)
    nlev = int(np.any(heights < 22000, axis=0).sum())
    return mt, heights, nlev


def obs_times(mt, gap, dense):
    step = 1 / dense
    t = np.arange(max(mt[0] - 1, 0), min(mt[-1] + 2, 24) + step / 2, step)
    if gap == "hole":
        t = t[(t < mt[0] + 0.75) | (t > mt[0] + 1.75)]
    elif gap == "start":
        t = t[t > mt[1] - 0.25]
    elif gap == "one":
        t = t[[len(t) // 2]] if dense < 8 else t[len(t) // 2 : len(t) // 2 + 2]
    return t


def wind_of(shape, rot):
    u, v, speed = ma.zeros(shape), ma.zeros(shape), np.zeros(shape)
    for i, j in np.ndindex(shape):
        a, b = WINDS[(i * 2 + j + rot) % len(WINDS)] if rot < len(WINDS) else WINDS[rot - len(WINDS)]
        if a is None:
            u[i, j] = v[i, j] = ma.masked
            speed[i, j] = np.nan
        else:
            u[i, j], v[i, j] = a, b
            speed[i, j] = math.hypot(a, b)
    return u, v, speed


def run_windows(case, tmp):
    mt, heights, nlev = setup(case)
    u, v, speed = wind_of(heights.shape, case["wind"])
    states, steps = [], 0
    for gap, dense, alt, holes in itertools.product(("", "hole", "start", "one"), (4, 8), (0, 350), range(4)):
        t = obs_times(mt, gap, dense)
        n = (len(t), len(GATES))
        vals = np.sqrt(np.arange(2, 2 + n[0] * n[1])).reshape(n) * 1e-5
        ok = np.ones(n, bool)
        if holes == 1:
            ok[(np.add.outer(np.arange(n[0]), np.arange(n[1])) % 3) > 0] = False
        elif holes == 2:
            ok[:, :5] = False
        elif holes == 3:
            ok[: n[0] // 2] = False
        kind = case["product"]
        if kind == "cf":
            vals = (np.add.outer(np.arange(n[0]) ** 2, 3 * np.arange(n[1])) % (2 + holes) == 0).astype(int)
            ok[:] = True
            fields = {"category_bits": np.where(vals > 0, 1, 2).astype(int), "quality_bits": np.zeros(n, int)}
        elif kind == "iwc":
            status = np.where(ok, 1 + 2 * (np.indices(n).sum(0) % 2), 2).astype(int)
            fields = {"iwc": ma.array(vals), "iwc_retrieval_status": status}
        else:
            bad = vals.copy()
            bad[~ok] = np.nan if alt else 0
            fields = {"lwc": ma.array(bad, mask=False if alt else ~ok)}
        m = model_file(f"{tmp}/m.nc", mt, heights, {}, wind=(u, v), res=case["res"])
        o = obs_file(f"{tmp}/o.nc", t, GATES, alt, fields)
        out = f"{tmp}/l3.nc"
        process("ecmwf", kind, m, o, out, overwrite=True)
        got = read(out)
        std = windows(mt, t)
        shape = (len(mt), nlev)
        names = {"cf": [("cf_V", "V"), ("cf_A", "A")]}.get(kind, [(kind, "V")])
        for name, how in names:
            for adv in (False, True):
                key = name + ("_adv" if adv else "")
                check(key in got, lambda: f"variable {key} is missing")
                check(got[key].shape == shape, lambda: f"{key} has shape {got[key].shape}, the model has {shape}")
                want = np.empty(shape, object)
                for i, j in np.ndindex(shape):
                    e = edges_of(list(heights[i, :nlev]))
                    g = np.array(GATES)
                    hi = np.flatnonzero((g >= e[j]) & (g < e[j + 1]))
                    ti = std[i]
                    if adv:
                        if np.isnan(speed[i, j]):
                            ti = np.array([], int)
                        else:
                            w = min(case["res"] * 1000 / speed[i, j] / 3600, 1)
                            edge = np.abs(np.abs(t - mt[i]) - w / 2)
                            if ((edge < 1e-5) & (edge > 0)).any():
                                want[i, j] = "?"
                                continue
                            ti = np.flatnonzero((t >= mt[i] - w / 2) & (t < mt[i] + w / 2))
                    want[i, j] = grid_mean(how, vals.astype(float), ok, ti, hi)
                steps += compare(f"{kind} {gap or 'full'} {dense}/h alt {alt} holes {holes}: {key}", got[key], want)
        check(np.allclose(got["time"], mt) and np.allclose(got["model_height"], heights[:, :nlev]), "the file is not on the grid of the model")
        states.append(f"{case}{gap}{dense}{alt}{holes}")
    return Out(states=states, transitions=steps, traces=len(states))


# ---------------------------------------------------------------- pixels

DROP, FALL, COLD, MELT, AER, INS = 1, 2, 4, 8, 16, 32


def cloud(b):
    """Liquid or cold falling particles, unless lidar or radar see aerosol or insects there."""
    return not b & (AER | INS) and bool(b & DROP or (b & FALL and b & COLD))


PLAIN = list(range(64))
CELLH = 40  # cells on top of each other


def stack(cells, npx_t, npx_h):
    """Puts independent cells side by side on a grid of 24 model times x CELLH levels."""
    grids = []
    for k in range(0, len(cells), 24 * CELLH):
        part = cells[k : k + 24 * CELLH]
        part = part + [part[-1]] * (24 * CELLH - len(part))
        arr = np.array(part).reshape(24, CELLH, npx_t, npx_h, *np.array(part[0]).shape[1:])
        arr = np.moveaxis(arr, 2, 1).reshape(24 * npx_t, CELLH * npx_h, *arr.shape[4:])
        grids.append(arr)
    return grids


def cell_axes(npx_t, npx_h):
    mt = np.arange(24) + 0.5
    lev = 50.0 + 100 * np.arange(CELLH)
    t = np.concatenate([x - 0.5 + (np.arange(npx_t) + 0.5) / npx_t for x in mt])
    h = np.concatenate([x - 50 + 100 * (np.arange(npx_h) + 0.5) / npx_h for x in lev])
    return mt, np.tile(lev, (24, 1)), t, h


def run_pixels(case, tmp):
    nt, nh = case["shape"]
    cells = [list(x) for x in untuple(case["cells"])]
    mt, heights, t, h = cell_axes(nt, nh)
    steps = 0
    if case["product"] == "cf":
        grid = stack(cells, nt, nh)[0]
        fields = {"category_bits": grid.astype(int), "quality_bits": np.zeros(grid.shape, int)}
        val = np.vectorize(lambda b: float(cloud(int(b))))(grid)
        ok = np.ones(grid.shape, bool)
    else:
        grid = stack([[PX[c] for c in cell] for cell in cells], nt, nh)[0]
        status, has = grid[..., 0].astype(int), grid[..., 1] > 0
        val = (1 + np.indices(status.shape).sum(0) % 7) * 1e-5 + np.arange(status.shape[1]) * 1e-7
        fields = {"iwc": ma.array(val, mask=~has), "iwc_retrieval_status": status}
        ok = has & np.isin(status, (1, 3))
    m = model_file(f"{tmp}/m.nc", mt, heights, {}, wind=(np.full(heights.shape, 0.5), np.zeros(heights.shape)))
    o = obs_file(f"{tmp}/o.nc", t, h, 100, fields)
    process("ecmwf", case["product"], m, o, f"{tmp}/l3.nc")
    got = read(f"{tmp}/l3.nc")
    for name, how in ([("cf_V", "V"), ("cf_A", "A")] if case["product"] == "cf" else [("iwc", "V")]):
        for key in (name, name + "_adv"):
            want = np.empty(heights.shape, object)
            for i, j in np.ndindex(heights.shape):
                want[i, j] = grid_mean(how, val, ok, np.arange(i * nt, (i + 1) * nt), np.arange(j * nh, (j + 1) * nh))
            steps += compare(f"cell of {nt}x{nh} pixels, {key}", got[key], want)
    return Out(states=[f"{case['product']}{c}" for c in cells], transitions=steps, traces=1)


PX = [(s, 1) for s in range(8)] + [(1, 0), (2, 0)]


# ---------------------------------------------------------------- model fields

CF = [None, 0.0, 0.049, 0.051, 0.3, 1.0]
Q = [None, 0.0, "below", "above", 1e-4]
COND = [(250.0, 5e4), (283.0, 1e5)]


def run_model(case, tmp):
    """Every combination of values of one cell, many cells in one file."""
    names = case["names"]
    limit = {"qi": 1e-7, "ql": 1e-5}
    cells = list(itertools.product(*[CF if n == "cloud_fraction" else Q for n in names], COND))
    nt = 6
    n = math.ceil(len(cells) / nt)
    cells += [cells[-1]] * (nt * n - len(cells))
    heights = np.tile(np.append(np.linspace(30, 20000, n), [22500, 30000]), (nt, 1))
    shape = heights.shape
    prod = case["product"]
    fields = {k: ma.zeros(shape) for k in (*names, "temperature", "pressure")}
    fields["temperature"][:], fields["pressure"][:] = 200, 5e3
    want = np.empty((nt, n), object)
    for k, cell in enumerate(cells):
        i, j = divmod(k, n)
        temp, pres = cell[-1]
        fields["temperature"][i, j], fields["pressure"][i, j] = temp, pres
        rho = pres / (RS * temp)
        total = 0.0
        for name, x in zip(names, cell):
            if x in ("below", "above"):
                x = limit["ql" if name == "ql" else "qi"] / rho * (0.98 if x == "below" else 1.02)
            fields[name][i, j] = ma.masked if x is None else x
            total = None if x is None or total is None else total + x
        if prod == "cf":
            want[i, j] = None if total is None or total < 0.05 else total
        else:
            lim = limit["qi" if prod == "iwc" else "ql"]
            want[i, j] = None if total is None or total * rho < lim else total * rho
    extra = {k: {"dims": ("time", "level"), "data": fields.pop(k)} for k in list(fields) if k in ("qs", "qg")}
    m = model_file(f"{tmp}/m.nc", np.arange(nt) * 3, heights, fields, extra=extra)
    t, h = np.arange(0, 24, 0.5), [100.0, 200.0]
    z = np.zeros((len(t), 2))
    o = obs_file(f"{tmp}/o.nc", t, h, 0, {"iwc": ma.array(z), "iwc_retrieval_status": z.astype(int), "lwc": ma.array(z), "category_bits": z.astype(int), "quality_bits": z.astype(int)})
    process("icon", prod, m, o, f"{tmp}/l3.nc")
    got = read(f"{tmp}/l3.nc")
    steps = compare(f"model_{prod}", got[f"model_{prod}"], want)
    return Out(states=[f"{prod}{c}" for c in cells], transitions=steps, traces=1)


# ---------------------------------------------------------------- cirrus

ZT = {35.5: (0.000242, -0.0186, 0.0699, -1.63), 94.0: (0.000580, -0.00706, 0.0923, -0.992)}
C_CF = [None, 0.0, 0.04, 0.06, 0.3, 1.0]
C_IWC = [0.0, 3e-7, 1e-6, 4e-6, 2e-5, 3e-4]  # kg m-3, grid mean
C_LWC = [0.0, 0.09, 0.11, 3.0]  # of the ice
C_T = [-60.0, -20.0, -2.0]
SENS = {"linear": (-50.0, 1.6e-3), "poor": (-20.0, 1e-3), "good": (-70.0, 5e-4)}


def run_cirrus(case, tmp):
    cells = list(itertools.product(C_CF, C_IWC, C_LWC, C_T))
    cells = cells[case["part"] :: 4]
    nlev = {"stretched": 18, "even": 12}[case["grid"]]
    nt = math.ceil(len(cells) / nlev)
    cells += [cells[-1]] * (nt * nlev - len(cells))
    base = 40.0 * 1.4 ** np.arange(nlev) if case["grid"] == "stretched" else 300.0 + 900 * np.arange(nlev)
    heights = np.tile(base, (nt, 1))
    if case["moving"]:
        heights *= 1 + 0.004 * np.sin(np.arange(nt))[:, None]
    shape = heights.shape
    f = {k: ma.zeros(shape) for k in ("cloud_fraction", "qi", "ql", "temperature", "pressure")}
    for k, (cf, iwc, lwc, temp) in enumerate(cells):
        i, j = divmod(k, nlev)
        f["cloud_fraction"][i, j] = ma.masked if cf is None else cf
        rho = 4e4 / (RS * (temp + 273.15))
        f["pressure"][i, j], f["temperature"][i, j] = 4e4, temp + 273.15
        f["qi"][i, j], f["ql"][i, j] = iwc / rho, iwc * lwc / rho
    uw = np.zeros(shape) + 2 + 20 * np.sin(np.arange(nlev) * case["shear"])
    vw = np.zeros(shape) + 1 + 10 * np.cos(np.arange(nlev) * case["shear"])
    m = model_file(f"{tmp}/m.nc", np.arange(nt) * 0.5, heights, f, res=case["res"], wind=(uw, vw))
    h = np.arange(15.0, 21500, 30.0)
    a, b = SENS[case["sens"]]
    sens = ma.array(a + b * h)
    t = np.arange(0, 24, 6.0)
    bits = np.zeros((len(t), len(h)), int)
    o = obs_file(f"{tmp}/o.nc", t, h, case["alt"], {"category_bits": bits, "quality_bits": bits}, freq=case["freq"], sens=sens)
    process("ecmwf", "cf", m, o, f"{tmp}/l3.nc")
    got = read(f"{tmp}/l3.nc")
    check("model_cf_cirrus" in got, "the filtered cloud fraction of the model is missing")
    res, steps = got["model_cf_cirrus"], 0
    mask = ma.getmaskarray(res)
    for k, (cf, iwc, lwc, temp) in enumerate(cells):
        i, j = divmod(k, nlev)
        where = f"cf {cf}, iwc {iwc}, lwc/iwc {lwc}, {temp} C, cell {(i, j)}"
        if cf is None or cf < 0.05:
            check(mask[i, j], lambda: f"{where}: {res[i, j]} although the model has no cloud")
            continue
        if iwc == 0 or lwc > 0.1:
            check(not mask[i, j] and abs(res[i, j] - cf) < 1e-5, lambda: f"{where}: {res[i, j]} although the cloud is not ice")
            continue
        e = edges_of(list(heights[i]))
        inside = (h >= e[j]) & (h < e[j + 1])
        if not inside.any():
            continue
        zt, tc, zc, c = ZT[case["freq"]]
        z = float(sens[inside].mean())
        minimum = 10 ** (zt * z * temp + tc * temp + zc * z + c)  # g m-3
        low, high = [expected(cf, iwc / cf * 1e3, 10 ** (0.3 * math.log10(case["res"]) - 1.03 + d), minimum) for d in (-0.02, 0.02)]
        low, high = min(low, high) - 0.012 * cf, max(low, high) + 0.012 * cf
        if mask[i, j]:
            check(low < 0.05, lambda: f"{where}: is missing, expected {low} ... {high}")
        else:
            check(low <= res[i, j] <= high, lambda: f"{where}: is {res[i, j]}, expected {low} ... {high}")
            check(0.05 - 1e-6 <= res[i, j] <= cf + 1e-6, lambda: f"{where}: is {res[i, j]}")
        steps += 1
    return Out(states=[f"{case}{c}" for c in cells], transitions=steps, traces=1)


def expected(cf, iwc, var, minimum):
    """Fraction of a gamma distribution up to mean + 5 standard deviations that a radar sees."""
    g = stats.gamma(a=1 / var, scale=iwc * var)
    top = iwc * (1 + 5 * math.sqrt(var))
    if minimum >= top:
        return 0.0
    return cf * (g.cdf(top) - g.cdf(minimum)) / g.cdf(top)


# ---------------------------------------------------------------- files

NEEDS = {
    "cf": (("cloud_fraction",), ("category_bits", "quality_bits", "height", "time")),
    "iwc": (("qi", "temperature", "pressure"), ("iwc", "iwc_retrieval_status", "height", "time")),
    "lwc": (("ql", "temperature", "pressure"), ("lwc", "height", "time")),
}


def small(tmp, case, drop_m=(), drop_o=(), freq=35.5, sens=True, attrs_m=None, attrs_o=None, res=9.0, clouds=True, name="20200307_site_model.nc"):
    gc.collect()  # a refused processing may keep its inputs open until then
    mt, heights = [0, 6, 12, 18], np.tile([100.0, 400.0, 900.0], (4, 1))
    t, h = np.arange(0, 24, 0.5), np.array([90.0, 300.0, 500.0, 1000.0])
    one = np.ones((len(t), len(h)))
    fields = {"cloud_fraction": np.full(heights.shape, 0.5 if clouds else 0.0)} | ({} if clouds else {"qi": np.zeros(heights.shape)})
    m = model_file(f"{tmp}/{name}", mt, heights, fields, drop=drop_m, attrs=attrs_m, res=res)
    f = {"cf": {"category_bits": one.astype(int), "quality_bits": one.astype(int)}, "iwc": {"iwc": ma.array(one * 1e-4), "iwc_retrieval_status": one.astype(int)}, "lwc": {"lwc": ma.array(one * 1e-4)}}[case]
    o = obs_file(f"{tmp}/20200307_site_product.nc", t, h, 20, f, freq=freq, sens=np.full(len(h), -40.0) if sens else None, attrs=attrs_o, drop=drop_o)
    return m, o


def run_files(case, tmp):
    kind = case["product"]
    out = f"{tmp}/out.nc"
    states, steps = [], 0

    def done():
        nonlocal steps
        got = read(out)
        names = [f"model_{kind}", "model_height", "time", *(["cf_V", "cf_A", "cf_V_adv", "cf_A_adv"] if kind == "cf" else [kind, f"{kind}_adv"])]
        check(all(n in got for n in names), lambda: f"the file lacks {[n for n in names if n not in got]}")
        check((ma.getmaskarray(got[names[3]]) == False).all(), "observed values are missing")  # noqa: E712
        steps += 1
        return got

    # refusals
    for which, names in zip(("model", "obs"), NEEDS[kind]):
        extra = ("height", "uwind", "horizontal_resolution", "time") if which == "model" else ()
        for name in (*names, *extra):
            m, o = small(tmp, kind, drop_m=(name,) if which == "model" else (), drop_o=(name,) if which == "obs" else ())
            try:
                process("ecmwf", kind, m, o, out)
            except Exception:
                check(not os.path.exists(out), lambda: f"without {name} of the {which} file the processing fails but leaves a file")
            else:
                check(False, f"a {which} file without {name} is accepted")
            states.append(f"{kind} no {name} {which}")
            steps += 1
    for res in (0.0, -9.0, np.nan):
        m, o = small(tmp, kind, res=res)
        try:
            process("ecmwf", kind, m, o, out)
        except Exception:
            check(not os.path.exists(out), "a refused processing leaves a file")
        else:
            check(False, f"a horizontal resolution of {res} is accepted")
        steps += 1
    # what the filter of cirrus needs may lack
    for freq, sens, clouds in itertools.product((35.5, 94.0, None), (True, False), (True, False)):
        m, o = small(tmp, kind, freq=freq, sens=sens, clouds=clouds)
        process("ecmwf", kind, m, o, out, overwrite=True)
        got = done()
        able = kind == "cf" and freq is not None and sens and clouds
        made = "model_cf_cirrus" in got and not ma.getmaskarray(got["model_cf_cirrus"]).all()
        check(made == able, f"model_cf_cirrus {'is missing' if able else 'made from nothing'}: frequency {freq}, sensitivity {sens}, clouds {clouds}")
        states.append(f"{kind}{freq}{sens}{clouds}")
    # existing files
    m, o = small(tmp, kind)
    for content, over in itertools.product((None, b"", b"precious"), (False, True)):
        if os.path.exists(out):
            os.remove(out)
        if content is not None:
            with open(out, "wb") as fh:
                fh.write(content)
        before = sorted(os.listdir(tmp))
        try:
            process("ecmwf", kind, m, o, out, overwrite=over)
        except FileExistsError:
            check(content == b"precious" and not over, f"refused with content {content}, overwrite {over}")
            with open(out, "rb") as fh:
                check(fh.read() == content, "an existing file was altered without permission")
            check(sorted(os.listdir(tmp)) == before, "a refused processing leaves files behind")
        else:
            check(not (content == b"precious" and not over), "an existing file was overwritten without permission")
            done()
        states.append(f"{kind}{content}{over}")
        steps += 1
    # names
    ids = (None, "5f0c1a3e-7d7e-4b8e-9d34-3c2f1a5b7c9d", uuidlib.UUID("5f0c1a3e-7d7e-4b8e-9d34-3c2f1a5b7c9d"))
    for model, name, site, given, pids in itertools.product(("ecmwf", "icon-iglo-12-23"), (None, "Ein Modell"), (None, "Ny-Ålesund"), ids, (True, False)):
        m, o = small(tmp, kind, name="20200307_site_other.nc")
        if not pids:
            with netCDF4.Dataset(o, "a") as nc:
                nc.delncattr("source_instrument_pids")
        before = ncio.filehash(m), ncio.filehash(o)
        ret = process(model, kind, m, o, out, given, name, site, overwrite=True)
        check(before == (ncio.filehash(m), ncio.filehash(o)), "an input file was altered")
        with netCDF4.Dataset(out) as nc:
            a = {k: nc.getncattr(k) for k in nc.ncattrs()}
            units = nc["time"].units
        long = {"cf": "cloud fraction", "iwc": "ice water content", "lwc": "liquid water content"}[kind]
        want = {
            "model_id": model, "model_name": name or model, "location": site or "Model Town", "cloudnet_file_type": f"l3-{kind}", "year": "2020", "month": "03", "day": "07",
            "file_uuid": str(ret), "title": f"Observed and modeled {long} over {site or 'Model Town'}",
        }
        for k, x in want.items():
            check(str(a.get(k)) == x, lambda: f"attribute {k} is {a.get(k)!r}, expected {x!r}")
        check(given is None or str(ret) == str(given), "another identifier than the given one")
        uuidlib.UUID(str(ret))
        check(sorted(a["source"].split("\n")) == ["20200307_site_other.nc", "20200307_site_product.nc"], lambda: f"source {a['source']!r}")
        check(sorted(str(a["source_file_uuids"]).replace(",", " ").split()) == [UUID_OBS, UUID_MODEL], lambda: f"source_file_uuids {a['source_file_uuids']!r}")
        check(a.get("source_instrument_pids") == ("https://pid/1\nhttps://pid/2" if pids else None), "instruments of the observations are not named")
        check("2020-03-07" in units and units.startswith("hours since"), lambda: f"time is in {units}")
        check(len(a["history"].split("\n")) >= 2 and long in a["history"].split("\n")[0], lambda: f"history {a['history']!r}")
        states.append(f"{kind}{model}{name}{site}{given}{pids}")
        steps += 1
    return Out(states=states, transitions=steps, traces=steps)


# ---------------------------------------------------------------- cases


def chunks(x, n):
    return [x[i : i + n] for i in range(0, len(x), n)]


def cases_windows(thorough):
    winds = range(2 * len(WINDS)) if thorough else (0, 4, 7, 8)
    return [
        {"product": p, "times": t, "levels": lev, "wind": w, "res": r}
        for p in ("cf", "iwc", "lwc") for t in TIMES for lev in LEVELS for w in winds for r in ((9.0, 25.0, 2.0) if thorough else (9.0,))
    ]


def cases_pixels(thorough):
    out = []
    for c in chunks(list(itertools.product(PLAIN, repeat=2)), 24 * CELLH):
        out += [{"product": "cf", "shape": (2, 1), "cells": c}, {"product": "cf", "shape": (1, 2), "cells": c}]
    thin = [tuple(DROP if (x, y) in {(0, a), (1, b)} else 0 for x in range(2) for y in range(20)) for a in range(21) for b in range(21)]
    out.append({"product": "cf", "shape": (2, 20), "cells": thin})
    thin = [tuple(DROP if y == k and x in (a, b) else 0 for x in range(20) for y in range(2)) for a in range(21) for b in range(a, 21) for k in (0, 1)]
    out.append({"product": "cf", "shape": (20, 2), "cells": thin})
    kinds = (0, DROP, FALL, FALL | COLD, AER) if thorough else (0, DROP, FALL | COLD)
    for shape in ((3, 2), (2, 3)):
        out += [{"product": "cf", "shape": shape, "cells": c} for c in chunks(list(itertools.product(kinds, repeat=6)), 24 * CELLH)]
    out += [{"product": "iwc", "shape": (2, 1), "cells": c} for c in chunks(list(itertools.product(range(len(PX)), repeat=2)), 24 * CELLH)]
    out += [{"product": "iwc", "shape": (1, 3), "cells": c} for c in chunks(list(itertools.product(range(len(PX)), repeat=3)), 24 * CELLH)]
    if thorough:
        out += [{"product": "iwc", "shape": (2, 2), "cells": c} for c in chunks(list(itertools.product(range(len(PX)), repeat=4)), 24 * CELLH)]
        out += [{"product": "cf", "shape": (3, 1), "cells": c} for c in chunks(list(itertools.product(PLAIN[::2], repeat=3)), 24 * CELLH)]
    return out


def cases_model():
    return [
        {"product": p, "names": n}
        for p, n in (("cf", ("cloud_fraction",)), ("lwc", ("ql",)), ("iwc", ("qi",)), ("iwc", ("qi", "qs")), ("iwc", ("qi", "qg")), ("iwc", ("qi", "qs", "qg")))
    ]


def cases_cirrus(thorough):
    out = []
    for grid, freq, sens, alt, res, moving, shear in itertools.product(("stretched", "even"), (35.5, 94.0), SENS, (0, 1500), (3.0, 9.0, 40.0) if thorough else (9.0,), (False, True), (0.0, 0.1) if thorough else (0.1,)):
        out += [{"grid": grid, "freq": freq, "sens": sens, "alt": alt, "res": res, "moving": moving, "shear": shear, "part": p} for p in range(4)]
    return out


def run(ctx):
    ctx.assume("model times are evenly spaced; model heights are in metres above ground; the first and last cell of a column reach one level spacing outwards; wind is never exactly calm")
    ctx.assume("cirrus is not judged in cells without a radar gate")
    w = "all 12" if ctx.thorough else "4"
    ctx.explore("windows", run_windows, cases_windows(ctx.thorough), chunk=1, bound=f"3 products x 4 model time axes x 4 level sets x {w} wind patterns x resolutions x gaps, densities and missing pixels of the observations x site altitudes")
    ctx.explore("pixels", run_pixels, cases_pixels(ctx.thorough), chunk=1, bound="all pairs of category bits, columns of 20 pixels with at most one cloudy pixel, rows of 20 with at most two, all cells of 2x3 pixels over 3 (5) kinds, all pairs and triples (quadruples) of retrieval states of ice")
    ctx.explore("model", run_model, cases_model(), chunk=1, bound="all combinations of missing, zero, just below and above the threshold and large, of one to three condensate fields, x 2 states of the air")
    ctx.explore("cirrus", run_cirrus, cases_cirrus(ctx.thorough), chunk=1, bound="all 432 combinations of cloud fraction, ice, liquid and temperature x grids x bands x sensitivities x altitudes x resolutions")
    ctx.explore("files", run_files, [{"product": p} for p in NEEDS], chunk=1, bound="every needed variable missing, existing outputs, names, identifiers, absent radar data")
