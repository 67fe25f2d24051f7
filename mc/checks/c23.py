"""C23: dissipation rate of turbulent kinetic energy from radar and lidar."""

from __future__ import annotations

import datetime
import gc
import itertools
import math
import os

import netCDF4
import numpy as np
from numpy import ma
from scipy.interpolate import CubicSpline

from mc import ncio
from mc.core import Out, check

LEVEL = "model_checking"
DAY = {"year": "2020", "month": "03", "day": "07"}
G = 9.80665
UNITS = "hours since 2020-03-07 00:00:00 +00:00"
BANDS = [(a * 10.0**e, b * 10.0**e) for e in (-1, 0, 1) for a, bs in ((0.2, (0.7, 1, 1.5)), (0.3, (1, 2, 3)), (0.5, (1.5, 3, 5)), (0.8, (2, 4, 6))) for b in bs]
BANDS += [(5e-3, 1.5e-2), (5e-3, 3e-2), (5e-3, 5e-2), (8e-3, 2e-2), (8e-3, 4e-2), (8e-3, 6e-2)]


def radar_file(path, sec, height, v, alt=100.0, pos="fixed", drop=()):
    n = len(sec)
    spec = {
        "dims": {"time": n, "height": len(height)},
        "vars": {
            "time": {"dims": ("time",), "data": np.asarray(sec) / 3600, "attrs": {"units": UNITS}},
            "height": {"dims": ("height",), "data": np.asarray(height, float), "attrs": {"units": "m"}},
            "v": {"dims": ("time", "height"), "data": v, "attrs": {"units": "m s-1"}},
        },
        "attrs": DAY | {"location": "Site", "file_uuid": "00000000-0000-4000-8000-000000000001", "history": "2020-03-08 01:00:00 +00:00 - radar file created", "source": "Radar"},
    }
    for k, x, slope in (("altitude", alt, 0.0), ("latitude", 50.0, 0.01), ("longitude", 8.0, -0.02)):
        if pos == "fixed":
            spec["vars"][k] = {"data": np.array(x)}
        else:
            spec["vars"][k] = {"dims": ("time",), "data": x + slope * np.asarray(sec) / 60}
    spec["vars"]["altitude"]["attrs"] = {"units": "m"}
    for k in drop:
        spec["vars"].pop(k)
    return ncio.write(path, spec)


def model_file(path, hours, height, u, v, surface=None, km=False, drop=()):
    hours, height = np.asarray(hours, float), np.asarray(height, float)
    h2 = np.tile(height, (len(hours), 1)) * (1e-3 if km else 1)
    spec = {
        "dims": {"time": len(hours), "level": len(height)},
        "vars": {
            "time": {"dims": ("time",), "data": hours, "attrs": {"units": UNITS}},
            "height": {"dims": ("time", "level"), "data": h2, "attrs": {"units": "km" if km else "m"}},
            "uwind": {"dims": ("time", "level"), "data": u}, "vwind": {"dims": ("time", "level"), "data": v},
        },
        "attrs": DAY | {"location": "Site", "file_uuid": "00000000-0000-4000-8000-000000000002", "history": "2020-03-08 02:00:00 +00:00 - model file created", "source": "Model"},
    }
    if surface == "height":
        spec["vars"]["sfc_height"] = {"dims": ("time",), "data": np.full(len(hours), 300.0), "attrs": {"units": "m"}}
    elif surface == "geopotential":
        spec["vars"]["sfc_geopotential"] = {"dims": ("time",), "data": np.full(len(hours), 300.0 * G), "attrs": {"units": "m2 s-2"}}
    for k in drop:
        spec["vars"].pop(k)
    return ncio.write(path, spec)


def turbulent(n, dt, wind, eps, seed=0):
    """Velocities of a wind of given speed with a perfect inertial range, at n steps of dt seconds."""
    t = np.arange(n) * dt
    m = np.arange(1, 240)
    k = 2 * math.pi * m / (wind * 1200)
    amp = np.sqrt(2 * 0.5 * eps ** (2 / 3) * k ** (-5 / 3) * (k[1] - k[0]))
    phase = (m * m * 0.61803 + m * 0.37 * (seed + 1)) % 1 * 2 * math.pi
    return (amp[:, None] * np.cos(2 * math.pi * m[:, None] / 1200 * t[None, :] + phase[:, None])).sum(0)


def spectrum_rate(vel, dt, wind):
    """(rate, error, sure) by the documented method, written out band by band."""
    n = len(vel)
    x = np.arange(n)
    ks, ps = [], []
    for f in range(1, n // 2 + 1):
        c = (vel * np.exp(-2j * math.pi * f * x / n)).sum()
        ps.append(dt * wind / n * abs(c) ** 2 / math.pi)
        ks.append(2 * math.pi * f / (n * dt * wind))
    ks, ps = np.array(ks), np.array(ps)
    if len(ks) < 2 or (ps <= 0).any():
        return None, None, len(ks) < 2
    rates, sure = [], True
    for lo, hi in BANDS:
        if (np.abs(ks / lo - 1) < 1e-9).any() or (np.abs(ks / hi - 1) < 1e-9).any():
            sure = False
        use = (ks > lo) & (ks < hi)
        if use.sum() < 2:
            continue
        b, a = np.polyfit(np.log10(ks[use]), np.log10(ps[use]), 1)
        if min(abs(b + 2), abs(b + 1.33)) < 1e-5:
            sure = False
        if -2 < b < -1.33:
            rates.append((10**a / 0.5) ** 1.5)
    if not rates:
        return None, None, sure
    return float(np.mean(rates)), float(np.std(rates, ddof=1)) if len(rates) > 1 else None, sure


def wind_at(mt, mh, speed, hours, height):
    out = np.empty(len(height))
    t = min(max(hours, mt[0]), mt[-1])
    i = min(max(int(np.searchsorted(mt, t, side="right")) - 1, 0), len(mt) - 2)
    w = (t - mt[i]) / (mt[i + 1] - mt[i])
    for j, h in enumerate(height):
        out[j] = (1 - w) * np.interp(h, mh, speed[i]) + w * np.interp(h, mh, speed[i + 1])
    return out


def expect(sec, v, ok, dt, hours, winds, cache):
    """Per gate: (rate, error), None or "?" for the window after a product time."""
    inside = np.flatnonzero((sec > hours * 3600) & (sec <= hours * 3600 + 300))
    full = int(300 / dt + 1e-6)
    res = []
    for j in range(v.shape[1]):
        vel, good = v[inside, j], ok[inside, j]
        n, lost = len(inside), len(inside) - int(good.sum())
        key = (hours, j)
        if good.sum() < 0.9 * full - 1:
            res.append(None)
        elif n != full or good.sum() < 0.9 * full + 1e-9 and good.sum() >= 0.9 * full - 1 - 1e-9 and lost:
            res.append("?")  # at the limit, or profiles missing from the file
        elif not good[:2].any() or not good[-2:].any():
            res.append(None)
        else:
            x = sec[inside]
            if lost:
                vel = CubicSpline(x[good], vel[good])(x)
            rate, err, sure = spectrum_rate(vel, dt, winds[j])
            res.append((rate, err) if sure else "?")
    return res


def process_radar(*args):
    from cloudnetpy.products import generate_epsilon_from_radar

    return generate_epsilon_from_radar(*args)


def run_radar(sec, height, v, dt, model, tmp, alt=100.0, pos="fixed", surface=None, km=False):
    """Processes one scene and compares every pixel; returns the number compared and the words seen."""
    hours, mh, u, w = model
    r = radar_file(f"{tmp}/r.nc", sec, height, v, alt, pos)
    m = model_file(f"{tmp}/m.nc", hours, mh, u, w, surface, km)
    out = f"{tmp}/e.nc"
    process_radar(r, m, out)
    with netCDF4.Dataset(out) as nc:
        got = {k: ma.array(x[:]) for k, x in nc.variables.items()}
    sec = np.asarray(sec, float)
    grid = [t for t in (15 + 30 * i for i in range(2880)) if ((sec > t) & (sec <= t + 300)).any()]
    check(len(got["time"]) == len(grid) and np.allclose(got["time"] * 3600, grid, atol=0.01), lambda: f"times {list(got['time'] * 3600)[:5]} ... {len(got['time'])}, expected {grid[:5]} ... {len(grid)}")
    check(np.allclose(got["height"], height), "heights are not those of the radar")
    speed = np.hypot(u, w)
    mamsl = np.asarray(mh) + (300.0 if surface else alt)
    vv, ok = ma.filled(v, 0.0).astype(float), ~ma.getmaskarray(v)
    steps, seen = 0, set()
    for i, t in enumerate(grid):
        winds = wind_at(hours, mamsl, speed, t / 3600, height)
        for j, want in enumerate(expect(sec, vv, ok, dt, t / 3600, winds, None)):
            if want == "?":
                continue
            where = f"at {t} s, gate {j}"
            e, err = got["epsilon"][i, j], got["epsilon_error"][i, j]
            if want is None or want[0] is None:
                check(e is ma.masked, lambda: f"{where}: rate {e} although there is none")
                check(err is ma.masked, lambda: f"{where}: error {err} without a rate")
            else:
                check(e is not ma.masked, lambda: f"{where}: rate is missing, expected {want[0]}")
                check(abs(e / want[0] - 1) < 1e-3, lambda: f"{where}: rate {e}, expected {want[0]}")
                if want[1] is None:
                    check(err is ma.masked, lambda: f"{where}: error {err} from a single band")
                else:
                    check(err is not ma.masked and abs(err - want[1]) < 1e-3 * want[1] + 1e-3 * want[0], lambda: f"{where}: error {err}, expected {want[1]}")
                seen.add("value")
            steps += 1
    for k, x, slope in (("altitude", alt, 0.0), ("latitude", 50.0, 0.01), ("longitude", 8.0, -0.02)):
        arr = np.broadcast_to(got[k], (len(grid),))
        for t, y in zip(grid, arr):
            if pos == "fixed":
                check(abs(y - x) < 1e-4, lambda: f"{k} is {y} instead of {x}")
            else:
                near = np.abs(sec - t)
                a, b = np.clip(t, sec[0], sec[-1]) - 60, np.clip(t, sec[0], sec[-1]) + 60
                if near.min() < 60 or t < sec[0]:
                    lims = sorted((x + slope * a / 60, x + slope * b / 60))
                    check(lims[0] - 1e-4 <= y <= lims[1] + 1e-4, lambda: f"at {t} s: {k} is {y}, the platform was at {lims}")
    return steps


CALM = ([0.0, 24.0], [10.0, 1000.0, 20000.0])


def steady(speed):
    return CALM[0], np.array(CALM[1]), np.full((2, 3), speed * 0.6), np.full((2, 3), -speed * 0.8)


def run_masks(case, tmp):
    """Every way to lose a few values of a window, one per range gate."""
    dt = case["dt"]
    n = int(300 / dt)
    pats = [tuple(p) for p in case["patterns"]]
    extra = 4
    sec = 18 + dt * np.arange(n + extra)
    base = turbulent(n + extra, dt, 8.0, 1e-3)
    v = ma.zeros((n + extra, len(pats)))
    for j, p in enumerate(pats):
        v[:, j] = base * (1 + j % 5)
        for i in p:
            v[i, j] = ma.masked
    steps = run_radar(sec, 200 + 10.0 * np.arange(len(pats)), v, dt, steady(8.0), tmp)
    return Out(states=[f"{dt}{p}" for p in pats], transitions=steps, traces=1)


def run_gaps(case, tmp):
    """Profiles missing from the file; ends of the day."""
    dt, start = case["dt"], case["start"]
    total = int(case["length"] / dt)
    sec = start + 3.1 + dt * np.arange(total)
    sec = sec[sec < 86400]
    wind = case["wind"]
    v = np.stack([turbulent(total, dt, wind, e, seed=k)[: len(sec)] for k, e in enumerate((1e-5, 1e-3, 0.03))], axis=1)
    a, b = case["gap"]
    keep = (sec < start + a) | (sec >= start + b)
    steps = run_radar(sec[keep], [150.0, 700.0, 3000.0], ma.array(v[keep]), dt, steady(wind), tmp, pos=case["pos"])
    return Out(states=[str(case)], transitions=steps, traces=1)


def run_wind(case, tmp):
    """Wind of the model at the time and height of the radar."""
    n = 40
    sec = case["start"] * 3600 + 3 + 10.0 * np.arange(n)
    height = np.array([120.0, 420.0, 1000.0, 1700.0, 5000.0])
    v = ma.array(np.stack([turbulent(n, 10.0, 6.0 + k, 1e-3, seed=k) for k in range(5)], axis=1))
    mh = np.array([10.0, 250.0, 800.0, 2000.0, 4000.0])
    mt = np.array(case["mt"], float)
    shape = (len(mt), len(mh))
    i, j = np.indices(shape)
    kind = case["kind"]
    u = {"const": 7.0 + 0 * i, "height": 3.0 + 2 * j, "time": 4.0 + 3 * i, "both": 5.0 + i + 2.0 * j}[kind] * (1 if case["sign"] > 0 else -1)
    w = {"const": 0.0 * i, "height": 1.0 * j, "time": 0.0 * i, "both": 2.0 - 1.0 * i}[kind]
    steps = run_radar(sec, height, v, 10.0, (mt, mh, u.astype(float), w.astype(float)), tmp, alt=case["alt"], surface=case["surface"], km=case["km"])
    return Out(states=[str(case)], transitions=steps, traces=1)


def run_files(case, tmp):
    out, states = f"{tmp}/e.nc", []
    sec = 3 + 10.0 * np.arange(40)
    v = ma.array(turbulent(40, 10.0, 8.0, 1e-3)[:, None])
    mt, mh, u, w = steady(8.0)
    for which, name in [("r", x) for x in ("time", "v", "altitude", "height")] + [("m", x) for x in ("uwind", "vwind", "height", "time")]:
        gc.collect()
        r = radar_file(f"{tmp}/r.nc", sec, [200.0], v, drop=(name,) if which == "r" else ())
        m = model_file(f"{tmp}/m.nc", mt, mh, u, w, drop=(name,) if which == "m" else ())
        try:
            process_radar(r, m, out)
        except Exception:
            check(not os.path.exists(out), f"without {name} the processing fails but leaves a file")
        else:
            check(False, f"input without {name} is accepted")
        states.append(name + which)
    gc.collect()
    r = radar_file(f"{tmp}/r.nc", sec, [200.0], ma.masked_all((40, 1)))
    m = model_file(f"{tmp}/m.nc", mt, mh, u, w)
    process_radar(r, m, out)
    with netCDF4.Dataset(out) as nc:
        check(ma.getmaskarray(nc["epsilon"][:]).all() and ma.getmaskarray(nc["epsilon_error"][:]).all(), "a rate from nothing")
        check(nc.cloudnet_file_type == "epsilon-radar" and (nc.year, nc.month, nc.day) == ("2020", "03", "07"), "wrong type or date")
        uuids = {x[-1] for x in nc.source_file_uuids.replace(",", " ").split()}
        check(uuids == {"1", "2"}, lambda: f"sources {nc.source_file_uuids}")
    states.append("masked")
    return Out(states=states, transitions=len(states), traces=len(states))


# ---------------------------------------------------------------- lidar


def stare_file(path, sec, height, v, ray=1.0, pulses=None, drop_atts=()):
    rng = np.asarray(height, float) - 100
    spec = {
        "dims": {"time": len(sec), "range": len(height)},
        "vars": {
            "time": {"dims": ("time",), "data": np.asarray(sec) / 3600, "attrs": {"units": UNITS, "calendar": "standard"}},
            "height": {"dims": ("range",), "data": np.asarray(height, float), "attrs": {"units": "m", "standard_name": "height_above_mean_sea_level", "long_name": "Height above mean sea level"}},
            "range": {"dims": ("range",), "data": rng, "attrs": {"units": "m"}},
            "v": {"dims": ("time", "range"), "data": v, "attrs": {"units": "m s-1"}},
            "latitude": {"data": np.array(50.0)}, "longitude": {"data": np.array(8.0)}, "altitude": {"data": np.array(100.0)},
        },
        "attrs": DAY | {"location": "Site", "Conventions": "CF-1.8", "file_uuid": "00000000-0000-4000-8000-000000000003", "history": "2020-03-08 01:00:00 +00:00 - stare file created", "source": "HALO Photonics StreamLine"},
    }
    if ray is not None:
        spec["vars"]["ray_accumulation_time"] = {"data": np.array(ray)}
    if pulses is not None:
        spec["vars"]["pulses_per_ray"] = {"data": np.array(pulses)}
    return ncio.write(path, spec)


def wind_file(path, sec, height, u, v):
    spec = {
        "dims": {"time": len(sec), "height": len(height)},
        "vars": {
            "time": {"dims": ("time",), "data": np.asarray(sec) / 3600, "attrs": {"units": UNITS, "calendar": "standard"}},
            "height": {"dims": ("height",), "data": np.asarray(height, float), "attrs": {"units": "m"}},
            "uwind": {"dims": ("time", "height"), "data": u}, "vwind": {"dims": ("time", "height"), "data": v},
        },
        "attrs": DAY | {"location": "Site", "file_uuid": "00000000-0000-4000-8000-000000000004", "history": "2020-03-08 00:30:00 +00:00 - wind file created", "source": "HALO Photonics StreamLine"},
    }
    return ncio.write(path, spec)


def process_lidar(*args):
    from cloudnetpy.products import generate_epsilon_from_lidar

    return generate_epsilon_from_lidar(*args)


def lidar_rate(sec, v, ok, height, wind, ray):
    """Rate of O'Connor et al. (2010) from the variance of the velocity within 3 min."""
    n, m = v.shape
    out = ma.masked_all((n, m))
    spread = np.zeros((n, m))
    for i in range(n):
        # the window reaches to the first profile at or beyond 90 s on either side
        lo = max([k for k in range(n) if sec[i] - sec[k] >= 90] or [0])
        hi = min([k for k in range(n) if sec[k] - sec[i] >= 90] or [n - 1])
        for j in range(m):
            good = [k for k in range(lo, hi + 1) if ok[k, j]]
            if not ok[i, j] or len(good) < 2:
                continue
            x = v[good, j]
            var = float(np.mean((x - x.mean()) ** 2))
            speed = float(np.mean(wind[lo : hi + 1, j]))
            up = speed * (sec[good[-1]] - sec[good[0]])
            low = speed * ray + 2 * height[j] * math.sin(33e-6 / 2)
            if up <= low:
                spread[i, j] = 1
                continue
            if var < 1e-9:
                spread[i, j] = 1
            out[i, j] = 2 * math.pi * (2 / (3 * 0.55)) ** 1.5 * var**1.5 * (up ** (2 / 3) - low ** (2 / 3)) ** -1.5
    return out, spread


def field(kind, step, h):
    """Zonal wind, linear in time and height."""
    return {"const": 6.0 + 0.0 * step, "linear": 3.0 + 0.4 * step + h / 500}[kind]


def speed_at(kind, step, h):
    if not 150 <= h <= 1000:  # nearest measurement
        step, h = round(step), 150.0 if h < 150 else 1000.0
    return 1.25 * field(kind, step, h)


def run_lidar_curved(case, tmp):
    """Wind that is not linear in height."""
    n, height = 26, np.array([200.0, 350.0, 600.0, 1000.0])
    sec = case["start"] + 2 + 20.0 * np.arange(n)
    i, j = np.indices((n, 4))
    v = 0.3 * np.sin(i * 1.7 + j) + 0.2 * np.cos(i * i * 0.31 + 2 * j)
    wh = np.array([150.0, 350.0, 600.0, 1000.0])
    u = np.tile([3.0, 9.0, 2.0, 6.0], (5, 1))
    s = stare_file(f"{tmp}/s.nc", sec, height, ma.array(v), ray=1.5)
    d = wind_file(f"{tmp}/w.nc", case["start"] - 600 + 400.0 * np.arange(5), wh, u, u * 0)
    process_lidar(s, d, f"{tmp}/e.nc")
    with netCDF4.Dataset(f"{tmp}/e.nc") as nc:
        got = ma.array(nc["epsilon"][:])
    ok = np.ones(v.shape, bool)
    right, _ = lidar_rate(sec, v, ok, height, np.tile(np.interp(height, wh, u[0]), (n, 1)), 1.5)
    # known: the levels between the lowest and the highest are not used
    wrong, _ = lidar_rate(sec, v, ok, height, np.tile(np.interp(height, wh, np.interp(wh, wh[[0, -1]], u[0, [0, -1]])), (n, 1)), 1.5)
    out = Out(states=[str(case)], transitions=right.size, traces=1)
    if not np.allclose(got / right, 1, atol=1e-3):
        check(np.allclose(got / wrong, 1, atol=1e-3), lambda: f"rates {got[3]}, expected {right[3]}")
        out.findings.append(("levels", "the wind measured between the lowest and the highest level is not used"))
    return out


def run_lidar(case, tmp):
    n, height = 26, np.array([200.0, 300.0, 450.0, 900.0])
    states, steps = [], 0
    for gap, hole, wmask, ray in itertools.product(("", "gap"), range(5), range(4), ("time", "low", "high")):
        sec = case["start"] + 2 + 20.0 * np.arange(n)
        if gap:
            sec[n // 2 :] += 150
        i, j = np.indices((n, 4))
        v = ma.array(0.3 * np.sin(i * 1.7 + j) + 0.2 * np.cos(i * i * 0.31 + 2 * j) + 0.1 * (j - 1))
        if hole == 1:
            v[(i + j) % 4 == 0] = ma.masked
        elif hole == 2:
            v[:, 1] = ma.masked
            v[5:20, 2] = ma.masked
        elif hole == 3:
            v[10] = ma.masked
        elif hole == 4:
            v[(i % 13 > 0) & (j == 0)] = ma.masked
            v[(i < 20) & (j == 3)] = ma.masked
        wsec = case["start"] - 600 + 400.0 * np.arange(5)
        wh = np.array([150.0, 350.0, 600.0, 1000.0])
        a, b = np.indices((5, 4))
        kind = case["wind"]
        u = ma.array(field(kind, a, wh[b]))
        w = u * -0.75
        if wmask == 1:
            u[2, 1] = ma.masked
        elif wmask == 2:
            w[1:3, 1:3] = ma.masked
        elif wmask == 3:
            u[0, 0] = ma.masked
            w[3, 2] = ma.masked
        rayt = {"time": 1.5, "low": 15000 / 15e3, "high": 30000 / 10e3}[ray]
        hh = height if ray != "high" else np.append(height[:3], 12000.0)
        s = stare_file(f"{tmp}/s.nc", sec, hh, v, ray=1.5 if ray == "time" else None, pulses={"low": 15000.0, "high": 30000.0}.get(ray))
        d = wind_file(f"{tmp}/w.nc", wsec, wh, u, w)
        out = f"{tmp}/e.nc"
        process_lidar(s, d, out)
        with netCDF4.Dataset(out) as nc:
            got = {k: ma.array(x[:]) for k, x in nc.variables.items()}
            units, att = nc["time"].units, {k: nc.getncattr(k) for k in nc.ncattrs()}
        speed = np.array([[speed_at(kind, (t - wsec[0]) / 400, h) for h in hh] for t in sec])
        want, unsure = lidar_rate(sec, ma.filled(v, 0.0), ~ma.getmaskarray(v), hh, speed, rayt)
        where = f"{gap} missing {hole}, wind missing {wmask}, ray {ray}"
        check("2020-03-07" in units and np.allclose(got["time"] * 3600, sec, atol=1e-2), f"{where}: wrong times")
        check(np.allclose(got["height"], hh), f"{where}: wrong heights")
        check(abs(float(got["ray_accumulation_time"]) - rayt) < 1e-4 and abs(float(got["rolling_window_period"]) - 180) < 1e-4, f"{where}: ray {got['ray_accumulation_time']}, window {got['rolling_window_period']}")
        tol = 1e-3 if kind == "const" or wmask == 0 else 0.02
        if kind == "linear" and wmask == 3:
            tol = 0.25  # the nearest value stands in at the corner
        g = got["epsilon"]
        for idx in np.ndindex(want.shape):
            if unsure[idx]:
                continue
            if want[idx] is ma.masked:
                # a lone value has no variance
                check(g[idx] is ma.masked or not np.isfinite(g[idx]) or abs(g[idx]) < 1e-9, lambda: f"{where} {idx}: rate {g[idx]} although there is none")
            else:
                check(g[idx] is not ma.masked, lambda: f"{where} {idx}: rate is missing, expected {want[idx]}")
                check(abs(g[idx] / want[idx] - 1) < tol, lambda: f"{where} {idx}: rate {g[idx]}, expected {want[idx]}")
            steps += 1
        check(att["cloudnet_file_type"] == "epsilon-lidar" and att["location"] == "Site" and (att["year"], att["month"], att["day"]) == ("2020", "03", "07"), f"{where}: wrong attributes")
        check({x.strip()[-1] for x in att["source_file_uuids"].split(",")} == {"3", "4"} and att["source"] == "HALO Photonics StreamLine", f"{where}: wrong sources")
        check("stare file created" in att["history"] and "wind file created" in att["history"], f"{where}: history lost")
        states.append(f"{case}{where}")
    return Out(states=states, transitions=steps, traces=len(states))


def run_lidar_refuse(case, tmp):
    """Too little wind is refused."""
    from cloudnetpy.exceptions import ValidTimeStampError

    states = []
    sec, height = 3 + 20.0 * np.arange(12), np.array([200.0, 300.0, 450.0])
    v = ma.array(np.sin(np.arange(36.0)).reshape(12, 3))
    for word in itertools.product((0, 1), repeat=9):
        if list(word[:4]) != list(case["first"]):
            continue
        gc.collect()
        good = np.array(word, bool).reshape(3, 3)
        enough = len(np.flatnonzero(good.any(0))) == 3 and len(np.flatnonzero(good.any(1))) == 3
        u = ma.array(np.full((3, 3), 4.0), mask=~good)
        s = stare_file(f"{tmp}/s.nc", sec, height, v)
        d = wind_file(f"{tmp}/w.nc", [0.0, 300.0, 600.0], [150.0, 300.0, 600.0], u, u * 0.75)
        out = f"{tmp}/e.nc"
        try:
            process_lidar(s, d, out)
        except ValidTimeStampError:
            check(not enough, f"wind known at {word} is refused")
            check(not os.path.exists(out), "a refused processing leaves a file")
        except Exception:
            collinear = enough and good.sum() == 3
            check(collinear, f"wind known at {word} fails")
            check(not os.path.exists(out), "a failed processing leaves a file")
        else:
            check(enough, f"wind known at {word} is accepted")
            os.remove(out)
        states.append(str(word))
    return Out(states=states, transitions=len(states), traces=len(states))


# ---------------------------------------------------------------- cases


def chunks(x, n):
    return [x[i : i + n] for i in range(0, len(x), n)]


def cases_masks(thorough):
    out = []
    for dt, most in ((10.0, 4 if thorough else 3), (20.0, 3 if thorough else 2)):
        n = int(300 / dt)
        pats = [p for k in range(most + 1) for p in itertools.combinations(range(n), k)]
        out += [{"dt": dt, "patterns": c} for c in chunks(pats, 100)]
    return out


def cases_gaps(thorough):
    out = []
    step = 20 if thorough else 50
    for dt, start, wind in itertools.product((10.0, 4.4, 3.0), (0, 43200, 85800), (2.0, 12.0)):
        gaps = [(0, 0)] + [(a, a + w) for a in range(0, 600, step * 2 if dt < 10 else step) for w in (60, 200, 400)]
        for k, g in enumerate(gaps):
            out.append({"dt": dt, "start": start, "length": 900, "wind": wind, "gap": g, "pos": ("fixed", "moving")[k % 2]})
    return out


def cases_wind():
    out = []
    for mt, start, kind, sign, alt, surface, km in itertools.product(
        ([0, 1, 2, 3], [0, 3, 6, 24], [0.5, 1.0]), (0, 0.8, 2.9, 23.85), ("const", "height", "time", "both"), (1, -1), (0.0, 150.0), (None, "height", "geopotential"), (False, True)
    ):
        out.append({"mt": mt, "start": start, "kind": kind, "sign": sign, "alt": alt, "surface": surface, "km": km})
    return out


def run(ctx):
    ctx.assume("radars sample evenly apart from gaps; a window with exactly a tenth of its values missing, or with some profiles missing from the file, is not judged; model wind is never calm or missing; model levels are constant in time")
    ctx.explore("masks", run_masks, cases_masks(ctx.thorough), chunk=1, bound="every set of at most 3 (4) missing values in a window of 30, at most 2 (3) of 15")
    ctx.explore("gaps", run_gaps, cases_gaps(ctx.thorough), chunk=2, bound="3 sampling intervals x 3 times of day x 2 winds x every position of gaps of 3 lengths x fixed and moving platforms")
    ctx.explore("wind", run_wind, cases_wind(), chunk=4, bound="3 model time axes x 4 times x 4 wind fields x signs x altitudes x surfaces x units")
    ctx.explore("files", run_files, [{}], chunk=1, bound="every needed variable missing; no velocity at all")
    ctx.explore("lidar", run_lidar, [{"start": s, "wind": w} for s in (3600, 40000) for w in ("const", "linear")], chunk=1, bound="2 times x 2 wind fields x gaps x 5 patterns of missing velocity x 4 of missing wind x 3 ways to give the accumulation time")
    ctx.explore("lidar curved", run_lidar_curved, [{"start": s} for s in (3600, 40000)], chunk=1, bound="2 times, wind curved in height")
    ctx.explore("lidar refuse", run_lidar_refuse, [{"first": a} for a in itertools.product((0, 1), repeat=4)], chunk=1, bound="all 512 patterns of missing wind on a grid of 3 x 3")
