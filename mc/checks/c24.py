"""C24: a day of weather radar scans."""

from __future__ import annotations

import datetime
import itertools
import math
import os
import pathlib

import netCDF4
import numpy as np

from mc import ncio
from mc.core import Out, check

LEVEL = "model_checking"

DAY = datetime.date(2026, 3, 16)
SITE = {"name": "Anjalankoski", "latitude": 60.9, "longitude": 27.1, "altitude": 139.0}
NAMES = {"SNR": "SNR", "v": "VRADH", "width": "WRADH", "zdr": "ZDR", "rho_hv": "RHOHV"}
# gain, offset, nodata, undetect, dtype
CODE = {
    "VRADH": (0.01, -327.68, 65535.0, 0.0, "u2"), "WRADH": (0.01, 0.0, 65535.0, 0.0, "u2"), "ZDR": (0.01, -327.68, 65535.0, 0.0, "u2"),
    "RHOHV": (1 / 65533, -1 / 65533, 65535.0, 0.0, "u2"), "SNR": (0.01, -327.68, 65535.0, 0.0, "u2"),
}
BYTES = {
    "VRADH": (0.25, -32.0, 255.0, 0.0, "u1"), "WRADH": (0.0625, 0.0, 255.0, 1.0, "u1"), "ZDR": (0.125, -8.0, 255.0, 0.0, "u1"),
    "RHOHV": (1 / 254, 0.0, 0.0, 255.0, "u1"), "SNR": (0.5, -32.0, 255.0, 0.0, "u1"),
}
GRID = {  # nbins, rstart (km), rscale (m)
    "std": (14, 0.125, 125.0), "short": (11, 0.125, 125.0), "coarse": (7, 0.1, 200.0), "long": (13, 0.0, 190.0), "absurd": (12, 0.125, 12500.0),
    "edge": (13, 0.0, 7990.0), "beyond": (13, 0.0, 8010.0),
}


def write(path, when, grid, fields, code=CODE, nezh=-34.6875, ni=15.96, wavelength=5.32, rays=3):
    """One scan; fields: quantity -> counts of (rays, bins)"""
    n, start, scale = GRID[grid] if isinstance(grid, str) else grid
    with netCDF4.Dataset(path, "w") as nc:
        nc.Conventions = "ODIM_H5/V2_3"
        g = nc.createGroup("what")
        g.date, g.time, g.object = when.strftime("%Y%m%d"), when.strftime("%H%M%S"), "SCAN"
        nc.createGroup("how").wavelength = wavelength
        g = nc.createGroup("where")
        g.lon, g.lat, g.height = 1.0, 2.0, 3.0  # of no interest
        ds = nc.createGroup("dataset1")
        g = ds.createGroup("where")
        g.elangle, g.nbins, g.rstart, g.rscale, g.nrays = 90.0, np.int64(n), start, scale, np.int64(rays)
        g = ds.createGroup("how")
        g.NEZH, g.NEZV, g.NI = nezh, nezh + 2.5, ni
        g = ds.createGroup("what")
        g.startdate, g.starttime = when.strftime("%Y%m%d"), (when + datetime.timedelta(seconds=7)).strftime("%H%M%S")
        for i, (q, counts) in enumerate(fields.items()):
            d = ds.createGroup(f"data{i + 1}")
            w = d.createGroup("what")
            w.gain, w.offset, w.nodata, w.undetect = code[q][:4]
            w.quantity = q
            d.createDimension("r", rays)
            d.createDimension("b", n)
            d.createVariable("data", code[q][4], ("r", "b"))
            d["data"].set_auto_maskandscale(False)
            d["data"][:] = counts
    return path


def gates(grid):
    n, start, scale = GRID[grid] if isinstance(grid, str) else grid
    return [start * 1000 + scale * (i + 0.5) for i in range(n)]


def profile(grid, fields, code=CODE, nezh=-34.6875):
    """name -> values by gate of one scan, before any screening"""
    rng = gates(grid)
    out = {}
    for name, q in NAMES.items():
        if q not in fields:
            out[name] = [None] * len(rng)
            continue
        gain, offset, nodata, undetect, _ = code[q]
        vals = []
        for col in np.array(fields[q]).T.tolist():
            x = [offset + gain * c for c in col if c not in (nodata, undetect)]
            if q in ("ZDR", "SNR"):
                x = [10 ** (v / 10) for v in x]
            m = sum(x) / len(x) if x else None
            vals.append(10 * math.log10(m) if m is not None and q in ("ZDR", "SNR") else m)
        out[name] = vals
    out["Zh"] = [None if s is None else s + nezh + 20 * math.log10(r / 1000) for s, r in zip(out["SNR"], rng)]
    return out


def regrid(prof, src, dst):
    """name -> per gate the set of acceptable values: those of the nearest gate, none outside"""
    out = {}
    for name, v in prof.items():
        rows = []
        for r in dst:
            if r < src[0] - 1e-6 or r > src[-1] + 1e-6:
                rows.append([None])
                continue
            dist = [abs(x - r) for x in src]
            rows.append([v[i] for i, x in enumerate(dist) if x <= min(dist) + 1e-6])
        out[name] = rows
    return out


def expected(scans):
    """scans: [(when, grid, fields, code, nezh)] all usable, of the day, any order -> range and {when: [profiles]}"""
    best = max((gates(s[1])[-1], -i) for i, s in enumerate(scans))
    rng = gates(scans[-best[1]][1])
    rows = {}
    for when, grid, fields, code, nezh in scans:
        rows.setdefault(when, []).append(regrid(profile(grid, fields, code, nezh), gates(grid), rng))
    return rng, rows


def clutter_gates(profiles):
    """How many lowest gates are clutter; None if it is too close to call"""
    top = 0
    for g in range(10):
        z = []
        for p in profiles:
            zz, vv = p["Zh"], p["v"]
            if g < len(zz) and zz[g][0] is not None and vv[g][0] is not None and vv[g][0] >= -1:
                z.append(zz[g][0])
        if z and sum(z) / len(z) > -10:
            top = g + 1
    return top


def near(a, b):
    return (a is None) == (b is None) and (a is None or abs(a - b) <= 1e-4 + 1e-5 * abs(b))


def compare(f, rng, rows, label, site=SITE, nezh=-34.6875, ni=15.96, wavelength=5.32):
    v = f["vars"]
    steps = 0
    when = sorted(rows)
    hours = [(t - datetime.datetime.combine(DAY, datetime.time())).total_seconds() / 3600 for t in when]
    check(len(v["time"]["data"]) == len(when), f"{label}: {len(v['time']['data'])} profiles of {len(when)} scans")
    check(all(abs(a - b) < 2e-6 * max(1, b) for a, b in zip(v["time"]["data"], hours)), f"{label}: times {v['time']['data']} instead of {hours}")
    check(all(a < b for a, b in zip(v["time"]["data"], v["time"]["data"][1:])), f"{label}: time does not increase")
    check(ncio.same(v["range"]["data"], rng, 1e-6), f"{label}: range {v['range']['data']} instead of {rng}")
    check(ncio.same(v["height"]["data"], [r + site["altitude"] for r in rng], 1e-6), f"{label}: height")
    check(ncio.same(v["radar_frequency"]["data"], 29.9792458 / wavelength, 1e-3), f"{label}: frequency {v['radar_frequency']['data']}")
    for key, want in (("nyquist_velocity", ni), ("calibration_reflectivity_factor", nezh), ("altitude", site["altitude"]), ("latitude", site["latitude"]), ("longitude", site["longitude"])):
        check(all(near(x, want) for x in np.ravel(v[key]["data"]).tolist()), f"{label}: {key} {v[key]['data']} instead of {want}")
    # of scans with the same time any one
    choices = list(itertools.product(*[rows[t] for t in when]))
    errors = []
    for chosen in choices:
        low = clutter_gates(chosen)
        err = None
        for i, p in enumerate(chosen):
            for name in ("SNR", "Zh", "v", "width", "zdr", "rho_hv"):
                got = v[name]["data"][i]
                for g in range(len(rng)):
                    steps += 1
                    snrs = p["SNR"][g]
                    if g < low:
                        ok = got[g] is None
                    elif snrs == [None] and name not in ("SNR", "Zh"):
                        ok = got[g] is None or any(near(got[g], w) for w in p[name][g])
                    else:
                        ok = any(near(got[g], w if s is None or s >= 0 else None) for w, s in zip(p[name][g], snrs))
                        ok = ok or (got[g] is None and any(s is not None and abs(s) < 1e-4 for s in snrs))
                    if not ok and err is None:
                        err = f"{label}: {name} of scan {i} at gate {g} is {got[g]}; expected {p[name][g]} with SNR {snrs}, {low} gates of clutter"
        if err is None:
            return steps
        errors.append(err)
    check(False, errors[0])


# ---------------------------------------------------------------- explorers


def counts(q, value, code=CODE):
    return round((value - code[q][1]) / code[q][0])


def plain(grid, seed, drop=(), n=3):
    """A scan with echo at most gates and no clutter."""
    bins = GRID[grid][0]
    i, j = np.meshgrid(np.arange(n), np.arange(bins), indexing="ij")
    x = (i * 31 + j * 17 + seed * 7) % 23
    f = {
        "VRADH": 32768 - 250 - 40 * x, "WRADH": 20 + 11 * x, "ZDR": 32768 + 30 * x - 200, "RHOHV": 65000 - 500 * x, "SNR": 32768 + 100 * x - 180,
    }
    hole = (j + seed) % 5 == 0
    return {k: np.where(hole & (i != seed % n) | ((j + 2 * seed) % 7 == 1), 0 if (seed + j) [0, 0] % 2 else 65535, v) for k, v in f.items() if k not in drop}


LETTERS = {
    "a": ("00:00:00", 0, "std", 0, ()), "b": ("00:05:00", 0, "std", 1, ()), "B": ("00:05:00", 0, "std", 2, ()), "c": ("23:59:59", 0, "short", 3, ()),
    "d": ("12:00:07", 0, "coarse", 4, ()), "l": ("06:00:00", 0, "long", 5, ()), "x": ("07:00:00", 0, "absurd", 6, ()), "p": ("23:55:00", -1, "std", 7, ()),
    "n": ("00:00:00", 1, "std", 8, ()), "z": ("09:30:00", 0, "std", 9, ("ZDR", "WRADH")),
}


def letter(ch):
    t, day, grid, seed, drop = LETTERS[ch]
    when = datetime.datetime.combine(DAY + datetime.timedelta(days=day), datetime.time.fromisoformat(t))
    return when, grid, plain(grid, seed, drop), CODE, -34.6875


def run_files(case, tmp):
    """Every list of scans."""
    from cloudnetpy.exceptions import ValidTimeStampError
    from cloudnetpy.instruments import wr2nc

    states, steps = [], 0
    for ch in LETTERS:
        when, grid, fields, *_ = letter(ch)
        write(f"{tmp}/{ch}.h5", when, grid, fields)
    for word in map("".join, itertools.product(LETTERS, repeat=case["n"] - len(case["first"]))):
        word = case["first"] + word
        files = [f"{tmp}/{ch}.h5" for ch in word]
        before = {f: ncio.filehash(f) for f in set(files)}
        usable = [letter(ch) for ch in word if ch != "x"]
        days = {s[0].date() for s in usable}
        if usable and not {k for s in usable for k in s[2]} >= set(NAMES.values()):
            continue
        dates = [DAY, DAY.isoformat()][len(states) % 2 :][:1] + ([None] if days == {DAY} else [])
        for date in dates:
            out = f"{tmp}/out.nc"
            arg = files
            if len(files) == 1:
                arg = [files, files[0], pathlib.Path(files[0])][len(states) % 3]
            elif len(states) % 2:
                arg = tuple(map(pathlib.Path, files))
            mine = [s for s in usable if s[0].date() == DAY]
            # the grid is that of the longest scan, of whatever day
            try:
                wr2nc(arg, out, SITE, date=date)
            except ValidTimeStampError:
                check(not mine, f"{word}: scans of the day are refused")
                check(not os.path.exists(out), f"{word}: a refused conversion leaves a file")
            else:
                check(mine, f"{word}: no scan of the day, but a file")
                f = ncio.read(out)
                os.remove(out)
                rngs = {tuple(gates(s[1])) for s in usable}
                rng = max(rngs, key=lambda r: r[-1])
                if not ncio.same(f["vars"]["range"]["data"], list(rng), 1e-6):
                    rng = max((gates(s[1]) for s in mine), key=lambda r: r[-1])
                rows = {}
                for when, grid, fields, code, nezh in mine:
                    rows.setdefault(when, []).append(regrid(profile(grid, fields, code, nezh), gates(grid), list(rng)))
                steps += compare(f, list(rng), rows, f"{word} {date}")
                check((f["attrs"]["year"], f["attrs"]["month"], f["attrs"]["day"]) == ("2026", "03", "16"), f"{word}: date")
            states.append(f"{word}{date}")
        check(before == {f: ncio.filehash(f) for f in set(files)}, f"{word}: an input file is changed")
    return Out(states=states, transitions=steps, traces=len(states))


def run_pixels(case, tmp):
    """Every combination of counts over three rays, against every one of the signal."""
    from cloudnetpy.instruments import wr2nc

    code = {"u2": CODE, "u1": BYTES}[case["code"]]
    levels = {"SNR": [-6.0, 4.0], "VRADH": [-5.0, 2.0], "WRADH": [0.5, 3.0], "ZDR": [-1.0, 6.0], "RHOHV": [0.25, 0.995]}
    if case["code"] == "u2":
        levels["SNR"] = case["snr"]
    words = list(itertools.product(range(4), repeat=3))
    pad = 10
    scans, files = [], []
    for k in case["shifts"]:
        fields = {}
        for m, (q, lv) in enumerate(levels.items()):
            gain, offset, nodata, undetect, _ = code[q]
            table = [int(nodata), int(undetect), counts(q, lv[0], code), counts(q, lv[1], code)]
            use = words if q == "SNR" else words[k:] + words[:k]
            cols = [[table[2 if q != "SNR" else 3]] * 3] * pad + [[table[i] for i in w] for w in use]
            fields[q] = np.array(cols).T
        when = datetime.datetime.combine(DAY, datetime.time()) + datetime.timedelta(minutes=5 * k)
        grid = (pad + len(words), 0.125, 125.0)
        nezh = -40.0
        files.append(write(f"{tmp}/{k}.h5", when, grid, fields, code, nezh))
        scans.append((when, grid, fields, code, nezh))
    wr2nc(files, f"{tmp}/out.nc", SITE, date=DAY)
    rng, rows = expected(scans)
    steps = compare(ncio.read(f"{tmp}/out.nc"), rng, rows, str(case["code"]), nezh=-40.0)
    return Out(states=[f"{case['code']}{k}{i}{case.get('snr')}" for k in case["shifts"] for i in range(len(words))], transitions=steps, traces=len(files))


ECHO = {"hot": (20.0, 0.3), "warm": (0.0, -0.4), "rain": (20.0, -3.0), "unknown": (20.0, None), "weak": (-30.0, 0.2), "drizzle": (-30.0, -2.0), "none": (None, None)}


def run_clutter(case, tmp):
    """Strong echo that does not fall, anywhere in the lowest gates."""
    from cloudnetpy.instruments import wr2nc

    states, steps = [], 0
    grid = (case.get("n", 14), 0.125, 125.0)
    rng = gates(grid)
    nezh = -40.0
    for gate, word in itertools.product(case["gates"], itertools.product(ECHO, repeat=case["profiles"])):
        if word[0] != case["first"]:
            continue
        scans, files = [], []
        for i, e in enumerate(word):
            fields = {q: np.zeros((2, grid[0]), int) for q in NAMES.values()}
            for g, r in enumerate(rng):
                z, v = ECHO[e] if g in gate else (-35.0, -0.2) if g % 3 else (None, None)
                if g > max(gate) and (g + i) % 4 == 1:
                    z, v = (15.0, -4.0)
                if z is not None:
                    fields["SNR"][:, g] = counts("SNR", z - nezh - 20 * math.log10(r / 1000))
                if v is not None:
                    fields["VRADH"][:, g] = counts("VRADH", v)
                fields["WRADH"][:, g], fields["ZDR"][:, g], fields["RHOHV"][:, g] = 50 + g, 32768 + 10 * g, 65000 - g
            when = datetime.datetime.combine(DAY, datetime.time()) + datetime.timedelta(minutes=5 * i)
            files.append(write(f"{tmp}/{i}.h5", when, grid, fields, nezh=nezh, rays=2))
            scans.append((when, grid, fields, CODE, nezh))
        wr2nc(files, f"{tmp}/out.nc", SITE, date=DAY)
        rng2, rows = expected(scans)
        steps += compare(ncio.read(f"{tmp}/out.nc"), rng2, rows, f"{gate} {word}", nezh=nezh)
        states.append(f"{grid[0]}{gate}{word}")
    return Out(states=states, transitions=steps, traces=len(states))


def run_settings(case, tmp):
    """Radar and site constants, grids, order of the quantities."""
    from cloudnetpy.exceptions import ValidTimeStampError
    from cloudnetpy.instruments import wr2nc

    states, steps = [], 0
    for wavelength, ni, nezh, alt in itertools.product((5.32, 3.2, 10.6), (15.96, 7.5), (-34.6875, 2.0), (139.0, 0.0, -3.5, 2500)):
        site = {"name": "X", "Latitude" if alt == 0 else "latitude": -60.9, "longitude": 27, "altitude": alt}
        grid = case["grid"]
        fields = plain(grid, len(states))
        fields = {q: fields[q] for q in case["order"]}
        when = datetime.datetime.combine(DAY, datetime.time(3, 0, 1))
        path, out = f"{tmp}/in.h5", f"{tmp}/out.nc"
        write(path, when, grid, fields, nezh=nezh, ni=ni, wavelength=wavelength)
        try:
            wr2nc(path, out, site, date=DAY)
        except ValidTimeStampError:
            check(gates(grid)[-1] > 1e5, f"{grid} is refused")
            check(not os.path.exists(out), "a refused conversion leaves a file")
        else:
            check(gates(grid)[-1] < 1e5, f"{grid} is accepted")
            rng, rows = expected([(when, grid, fields, CODE, nezh)])
            f = ncio.read(out)
            steps += compare(f, rng, rows, f"{grid} {wavelength} {ni} {nezh} {alt}", site | {"latitude": -60.9}, nezh, ni, wavelength)
            for name, units in (("Zh", "dBZ"), ("SNR", "dB"), ("zdr", "dB"), ("v", "m s-1"), ("width", "m s-1"), ("rho_hv", "1"), ("range", "m"), ("height", "m"), ("radar_frequency", "GHz"), ("nyquist_velocity", "m s-1"), ("calibration_reflectivity_factor", "dBZ")):
                check(f["vars"][name]["attrs"].get("units") == units, f"units of {name}: {f['vars'][name]['attrs'].get('units')}")
            check(f["attrs"]["cloudnet_file_type"] == "weather-radar", "file type")
            os.remove(out)
        states.append(str((grid, case["order"], wavelength, ni, nezh, alt)))
    return Out(states=states, transitions=steps, traces=len(states))


def run(ctx):
    ctx.assume("scans of one radar share wavelength, Nyquist velocity and calibration; every scan has SNR, and every other quantity is in some scan; without a date the scans are of one day; other quantities of pixels without SNR are not judged, nor SNR of exactly zero")
    n = 4 if ctx.thorough else 3
    cases = [{"n": k, "first": a} for k in range(1, n) for a in ([""] if k == 1 else LETTERS)]
    cases += [{"n": n, "first": a + b} for a in LETTERS for b in LETTERS]
    ctx.explore("files", run_files, cases, chunk=1, bound=f"every list of at most {n} scans of 10 kinds (times, days, grids, quantities, doubles), with and without a date")
    shifts = [list(range(i, 64, 8)) for i in range(8)]
    cases = [{"code": "u2", "shifts": s, "snr": v} for s in shifts for v in ([-6.0, 4.0], [-3.0, 12.0], [1.0, 20.0])] + [{"code": "u1", "shifts": s} for s in shifts]
    ctx.explore("pixels", run_pixels, cases, chunk=1, bound="all 64 patterns of nodata, undetected and two values over three rays of every quantity x all 64 of the signal x 2 encodings x 3 signal levels")
    each = [[g] for g in range(12)]
    cases = [{"gates": [g], "first": e, "profiles": 3 if ctx.thorough or g[0] in (0, 4, 9, 10) else 2} for g in each for e in ECHO]
    cases += [{"gates": [(a, b)], "first": e, "profiles": 2} for a, b in ((0, 5), (3, 9), (8, 10), (9, 11), (2, 3)) for e in ECHO]
    cases += [{"gates": [[g]], "first": e, "profiles": 2, "n": 6} for g in (0, 3, 5) for e in ECHO]
    ctx.explore("clutter", run_clutter, cases, chunk=1, bound="7 kinds of echo at each of 12 lowest gates, and at pairs, in every sequence of 2 or 3 profiles")
    orders = [list(NAMES.values()), list(NAMES.values())[::-1], ["SNR", "ZDR", "RHOHV", "VRADH", "WRADH"]]
    ctx.explore("settings", run_settings, [{"grid": g, "order": o} for g in GRID for o in orders], chunk=1, bound="3 wavelengths x 2 Nyquist velocities x 2 calibrations x 4 altitudes x 7 range grids x 3 orders")
