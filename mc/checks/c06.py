"""C06: noise screening of lidar backscatter.

A case is a word of profile kinds (pure noise, layers of given signal-to-noise ratio, cloud, runs of negative
values, fog, silence, sunlight, missing values), an instrument, a vertical grid and a time step.
"""

import itertools
import os

import numpy as np

from .. import lidar, ncio
from ..core import Out, check, digest
from .c07 import DAY, SITE

LEVEL = "model_checking"
KINDS = "nqacNBVfzstemx"
#            dr (m), gates, time step (s)
GRIDS = {"high": (100.0, 150, 30), "mid": (32.0, 130, 30), "low": (10.0, 120, 30), "slow": (32.0, 130, 300), "fast": (20.0, 130, 12)}


def u_profile(kind, i, ng, km):
    """Range-uncorrected signal, 1/(m sr); None = missing."""
    amp = 1.0372e-7 if kind != "q" else 6e-10
    u = [amp * (1 if j % 2 else -1) * (1 + 0.1 * ((7 * j + 3 * i) % 5)) for j in range(ng)]
    if kind in "acq":
        for n, snr in enumerate((3.0, 4.4, 6.0, 9.0, 25.0, 60.0)):
            u[12 + n] = snr * amp * 1.21 * (1 + 0.01 * i)
    if kind == "c":
        for j in (30, 31, 32):
            u[j] = (5e-5 + 1e-6 * j + 1e-6 * i) / km[j] ** 2
    neg = {"N": 8, "B": 25, "V": 5}.get(kind, 0)
    for j in range(40, 40 + neg):
        u[j] = -2e-8 * (1 + 0.1 * (j % 3))
    if neg:
        u[39] = u[40 + neg] = 3e-8
        for j, x in ((70, 1e-6), (71, 6.5e-6), (74, 2e-5), (75, 1e-5)):
            u[j] = x * (1 + 0.01 * i)
    if kind == "f":
        for j in range(2, 12):
            u[j] = (3e-4 - 1e-5 * abs(j - 6)) / km[j] ** 2
        for j, x in ((1, 5e-7), (20, 1e-6), (22, 3e-6), (24, 5e-6), (90, 1e-7)):
            u[j] = x
    if kind in "ze":
        top = ng - round(0.1 * ng)
        u[top:] = [0.0] * (ng - top)
        for j, x in ((14, 1e-6), (20, 5e-6 if kind == "z" else 1e-5), (24, 1e-6), (26, 3e-6), (28, 1.5e-6)):
            u[j] = x * (1 + 0.01 * i)
    if kind in "st":
        high = [j for j in range(ng) if km[j] > 10]
        for j in high[: 34 if kind == "s" else 28]:
            u[j] = 2e-6 * (1 + 0.1 * (j % 3))
    if kind == "m":
        for j in (18, 19, 33, 58, ng - 2):
            u[j] = None
    if kind == "M":
        u = [None] * ng
    if kind == "x":
        u[12] = 3e-6
        for j in (20, 33, ng - 3):
            u[j] = float("nan")
    return u


def run_noise(case, tmp):
    from cloudnetpy.exceptions import LidarDataError, ValidTimeStampError
    from cloudnetpy.instruments import ceilo2nc

    inst, o, word = case["inst"], case.get("o", {}), case["w"]
    dr, ng, dt = GRIDS[case["grid"]]
    if inst == "cl51":
        ng = 1540
    rng = [dr * (j + 0.5) for j in range(ng)]
    km = [r / 1000 for r in rng]
    profs, raw = [], []
    old = bool(o.get("old"))
    for i, k in enumerate(word):
        u = u_profile(k, i, ng, km)
        p = {"t": 600 + dt * i, "tilt": 3, "p": [1.0] * ng, "x": [0.5] * ng}
        beta = [x if x is None or x != x else x * r * r for x, r in zip(u, km)]
        if inst in lidar.TEXT:
            p["counts"] = [round(x / 1e-8) + (round(x / 1e-8) == 100) for x in beta]
            raw.append([c * 1e-8 for c in p["counts"]])
        else:
            cal = 3e-12 if inst == "chm15k" else 1.0
            g = cal * 1.0
            if old:
                f = [g * (r * 1000) ** 2 for r in km]
            else:
                f = [g] * ng
            p["raw"] = [x if x is None or x != x else float(np.float32(x / y)) for x, y in zip(beta, f)]
            raw.append([np.nan if x is None else x * y for x, y in zip(p["raw"], f)])
        profs.append(p)
    path, out = os.path.join(tmp, "raw.dat"), os.path.join(tmp, "out.nc")
    if inst in lidar.TEXT:
        lidar.write_text(path, inst, profs, {"res": int(dr), "head": True, "crlf": True}, DAY)
    else:
        shift = 0.5 if inst == "chm15k" else -0.5
        lidar.write_nc(path, inst, profs, {"range": [r + shift * dr for r in rng], **({"version": "2.1 2.3 0.556"} if old else {})}, DAY)
    meta = {**SITE, **({"model": inst} if inst in ("cs135", "da10") else {})}
    corrected = not o.get("uncorrected")
    if not corrected:
        meta["range_corrected"] = False
    raw = np.array(raw)
    hours = [p["t"] / 3600 for p in profs]
    try:
        beta, smooth = lidar.screened(raw, hours, rng, inst, corrected, old)
    except lidar.TooClose:
        return Out(states=[digest("undecided")], transitions=0)
    sun = lidar.sunbeam(beta, rng)
    if any(s % 1 and int(s) < 15 <= int(s) + round((s % 1) * 1000) for s in sun):
        return Out(states=[digest("undecided")], transitions=0)
    rows = [i for i, s in enumerate(sun) if s < 15]
    if set(word) == {"M"} and inst in ("cl61d", "da10"):
        rows = []
    try:
        ceilo2nc(path, out, meta, date=DAY)
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    if not rows:
        check(err is not None, "file with every profile rejected was written")
        if not isinstance(err, (ValidTimeStampError, LidarDataError)):
            raise err
        check(not os.path.exists(out), "an output file was left behind")
        return Out(states=[digest("rejected")])
    if err is not None:
        raise err
    a = ncio.arrays(out)
    check(len(a["time"]) == len(rows), lambda: f"{len(a['time'])} profiles instead of {rows}")
    check(np.allclose(a["time"], [hours[i] for i in rows], rtol=1e-6), "times")
    br = raw[rows]
    check((np.ma.getmaskarray(a["beta_raw"]) == np.isnan(br)).all(), "missing values of beta_raw")
    check(np.ma.allclose(a["beta_raw"], np.ma.masked_invalid(br), rtol=1e-5, atol=1e-14), "beta_raw")
    kept = 0
    for key, g in (("beta", beta), ("beta_smooth", smooth)):
        got = a[key]
        have = ~np.ma.getmaskarray(got)
        for n, i in enumerate(rows):
            for j in range(ng):
                if g.unsure[i, j]:
                    continue
                check(have[n, j] == g.keep[i, j], lambda: f"{key} of profile {i} ({word[i]}) gate {j}: " + ("kept" if have[n, j] else "removed") + f", value {g.val[i, j]:.3g}, raw {raw[i, j]:.3g}")
                if have[n, j]:
                    kept += 1
                    w = g.val[i, j]
                    check(abs(got[n, j] - w) <= 1e-5 * abs(w) + 1e-13, lambda: f"{key} of profile {i} ({word[i]}) gate {j}: {got[n, j]} expected {w}")
    return Out(states=[digest([inst, case["grid"], len(rows), kept])], transitions=len(word) * ng)


def words(kinds, n):
    return ["".join(w) for w in itertools.product(kinds, repeat=n)]


def configs():
    out = []
    for inst in ("chm15k", "cl61d", "da10", "cs135", "cl31"):
        for grid in ("high", "mid", "low", "slow", "fast"):
            if inst == "cs135" and grid == "high":
                continue  # two digits for the resolution
            if inst == "cl31" and grid == "high":
                continue
            for o in ({}, {"uncorrected": True}, {"old": True}):
                if o.get("old") and inst != "chm15k":
                    continue
                if inst == "da10" and o:
                    continue
                out.append({"inst": inst, "grid": grid, "o": o})
    return out


def kinds(c):
    k = KINDS
    if c["inst"] in lidar.TEXT:
        k = k.replace("m", "").replace("x", "").replace("q", "")
    else:
        k += "M"
    if c["grid"] != "high":
        k = k.replace("s", "").replace("t", "")
    return k


def cases_pairs():
    return [{**c, "w": w} for c in configs() for w in words(kinds(c), 2)]


def cases_triples():
    return [{**c, "w": w} for c in configs() for w in words(kinds(c), 3)]


def cases_quick():
    return [{"inst": "chm15k", "grid": "high", "o": {}, "w": w} for w in words("nacNfsm", 3)]


def cases_long():
    """CL51 columns and longer series."""
    out = []
    for w in ("nacNBV", "fzenac", "ssnnta"):
        for o in ({}, {"uncorrected": True}):
            out.append({"inst": "cl51", "grid": "low", "o": o, "w": w})
    for c in configs():
        for w in ("nacNBVfzenac", "ncmMxncmMx", "ssnttsnssn", "aaaaaaaaaa"):
            k = kinds(c)
            w = "".join(x for x in w if x in k)
            out.append({**c, "w": w})
    return out


def run(ctx):
    ctx.explore("pairs", run_noise, cases_pairs(), bound="all pairs of profile kinds on every instrument, grid and option")
    ctx.explore("long", run_noise, cases_long(), bound="listed longer series, CL51")
    if ctx.thorough:
        ctx.explore("triples", run_noise, cases_triples(), bound="all triples of profile kinds on every instrument, grid and option")
    else:
        ctx.explore("triples", run_noise, cases_quick(), bound="all triples of seven profile kinds for CHM15k")
    ctx.assume("Scenes keep away from the fog, cloud and sunbeam limits; gates within 2e-5 of a threshold are not judged.")
    ctx.assume("Raw values above 1e-6 are strong signal that is not smoothed, also where the screening removed them.")
