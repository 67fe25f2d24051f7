"""C07: lidars and ceilometers (CL31, CL51, CT25k, CS135, CHM15k, CHM15kx, CL61d, DA10, PollyXT).

A case lists the profiles of the raw file as a word of symbols (time letter + kind letters), the instrument and
options.  The reference decides from the same description which profiles come out and with what values.
"""

import datetime
import itertools
import math
import os

import numpy as np

from .. import lidar, ncio
from ..core import Out, Violation, check, digest

LEVEL = "model_checking"
SITE = {"name": "Bunker", "latitude": 51.25, "longitude": -1.5, "altitude": 100.0}
DAY = datetime.date(2021, 3, 4)
TIMES = {"P": -660, "Y": -86400 + 30 * 60, "Z": 0, "A": 600, "B": 630, "C": 660, "D": 50400, "E": 86370, "N": 86400 + 330}
WAVELENGTH = {"cl31": 910.0, "cl51": 910.0, "ct25k": 905.0, "cs135": 905.0, "chm15k": 1064.0, "chx": 1064.0, "cl61d": 910.55, "da10": 911.0}
MODEL = {"cl31": "CL31", "cl51": "CL51", "ct25k": "CT25k", "cs135": "CS135", "chm15k": "CHM15k", "chx": "CHM15kx", "cl61d": "CL61d", "da10": "DA10"}
NG = {"cl31": 121, "cl51": 1540, "ct25k": 256, "cs135": 130}


class Refused(Exception):
    pass


def f32(x):
    return float(np.float32(x))


def counts(i, rng_km, strong=5000):
    """Noise growing with range squared, an aerosol layer and a cloud; unit is 1e-8 /(m sr)."""
    out = []
    for j, r in enumerate(rng_km):
        u = 10 * (1 if j % 2 else -1) * (1 + 0.1 * ((7 * j + 3 * i) % 5))
        c = round(u * r * r)
        if 6 <= j < 10:
            c += 50 + 4 * i + (j - 6)
        if 14 <= j < 16:
            c += strong + 100 * i + j
        out.append(c)
    return out


AEROSOL, CLOUD = range(6, 10), range(14, 16)


def profile(sym, i, inst, o, rng_km):
    k = sym[1:]
    p = {"t": TIMES[sym[0]] + 0.25 * ("f" in k), "i": i, "kind": k, "tilt": 7 if "t" in k else 2, "scale": 50 if "h" in k else 100}
    p["bad"], p["cut"], p["style"] = "x" in k, "k" in k, "s" in k
    if inst in lidar.TEXT:
        c = counts(i, rng_km)
        if inst == "ct25k":
            c = [round(x / 10) for x in c]
        p["counts"] = c
        p["beta"] = [x * (1e-7 if inst == "ct25k" else 1e-8) * p["scale"] / 100 for x in c]
    else:
        cal = 3e-12 if inst in ("chm15k", "chx") else 1.0
        p["beta"] = [x * 1e-8 for x in counts(i, rng_km)]
        p["std"], p["nn"] = 1.25 + 0.25 * (i % 4), {"hi": 3685 + 20 * (i % 3), "lo": 140 + 4 * (i % 3), "no": 1000}[o.get("nnr", "hi")]
        if o.get("old"):  # the raw signal is normalized and not range corrected
            g = p["std"] / apd(p["nn"])
            p["raw"] = [f32(b / cal / g / (r * 1000) ** 2) for b, r in zip(p["beta"], rng_km)]
            p["beta"] = [x * g * (r * 1000) ** 2 * cal for x, r in zip(p["raw"], rng_km)]
        else:
            p["raw"] = [f32(b / cal) for b in p["beta"]]
            p["beta"] = [x * cal for x in p["raw"]]
        p["p"] = [2.0 + 0.5 * (i % 3)] * len(rng_km)
        p["x"] = [0.125 + 0.0625 * (i % 5)] * len(rng_km)
        p["x"][7], p["x"][8], p["x"][15] = -0.25, 9.0, 0.5
        if "m" in k:
            for key in ("raw", "beta"):
                p[key] = [None] * len(rng_km)
        if "g" in k:
            for key in ("raw", "beta"):
                p[key] = [None if 40 <= j < 43 else x for j, x in enumerate(p[key])]
        if "q" in k:  # written as not-a-number
            p["beta"] = [None if j in (30, 33, 45) or j >= len(rng_km) - 2 else x for j, x in enumerate(p["beta"])]
            p["raw"] = [float("nan") if b is None else x for b, x in zip(p["beta"], p["raw"])]
        if "d" in k:
            p["x"] = [None] * len(rng_km)
        p["depol"] = [None if x is None else x / y for x, y in zip(p["x"], p["p"])]
    return p


def apd(nn):
    if 120 < nn < 160:
        return 1.24 ** (-(nn - 140) / 5)
    if 3200 < nn < 4000:
        return 1.035 ** (-(nn - 3685) / 1)
    return 1.0


def geometry(inst, o):
    """(ranges in the file, ranges expected)"""
    if inst in lidar.TEXT:
        res = {"ct25k": 30}.get(inst, o.get("res", 5 if inst == "cs135" else 10))
        n = o.get("ng", NG[inst])
        return None, [res * (j + 0.5) for j in range(n)]
    n = o.get("ng", 124)
    res = o.get("dr", 32.0)
    if inst in ("chm15k", "chx"):
        return [res * (j + 1) for j in range(n)], [res * (j + 0.5) for j in range(n)]
    return [res * j for j in range(n)], [res * (j + 0.5) for j in range(n)]


def expected(case, profs):
    """Groups of alternatives, one per output row."""
    o = case.get("o", {})
    good = [p for p in profs if not (p["bad"] or p["cut"])]
    if not good:
        raise Refused
    date = case.get("date", "day")
    if date is None:
        day = math.floor(min(p["t"] for p in good) / 86400)
    else:
        day = 0
    good = [p for p in good if math.floor(p["t"] / 86400) == day]
    rows = []
    for t in sorted({p["t"] for p in good}):
        rows.append([p for p in good if p["t"] == t])
    if len(rows) < 2:
        raise Refused
    return rows, day


def tilt(case, profs, rows):
    """Admissible zenith angles: the median over the profiles of the day, or of the file."""
    inst, o = case["inst"], case.get("o", {})
    if inst in lidar.NETCDF and o.get("tilt", "none" if inst == "cl61d" else "time") == "none":
        return [3.0]
    if o.get("tilt") == "scalar":
        return [float(profs[0]["tilt"])]
    good = [p for p in profs if not (p["bad"] or p["cut"])]
    return [lidar.median([float(p["tilt"]) for p in good]), lidar.median([float(r[0]["tilt"]) for r in rows])]


def run_lidar(case, tmp):
    from cloudnetpy.instruments import ceilo2nc

    inst, o = case["inst"], case.get("o", {})
    raw_range, rng = geometry(inst, o)
    km = [r / 1000 for r in rng]
    profs = [profile(s, i, inst, o, km) for i, s in enumerate(case["w"])]
    path = os.path.join(tmp, o.get("name", "raw.dat"))
    if inst in lidar.TEXT:
        lidar.write_text(path, inst, profs, o, DAY)
    else:
        lidar.write_nc(path, inst, profs, {**o, "range": raw_range}, DAY)
    before = ncio.filehash(path)
    meta = dict(SITE)
    cal = o.get("cal")
    if cal is not None:
        meta["calibration_factor"] = cal
    if o.get("model"):
        meta["model"] = o["model"]
    out = os.path.join(tmp, "out.nc")
    date = {"day": DAY, "str": DAY.isoformat(), None: None}[case.get("date", "day")]
    try:
        rows, day = expected(case, profs)
        refused = False
    except Refused:
        refused = True
    from cloudnetpy.exceptions import CloudnetException

    try:
        ceilo2nc(path, out, meta, date=date)
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    check(ncio.filehash(path) == before, "raw file was changed")
    if refused:
        if inst == "ct25k":
            if err is None:
                return Out(states=[digest("ct-one-row")])
            return Out(states=[digest("refused")])
        check(err is not None, "file without two profiles of the day was accepted")
        if not isinstance(err, (CloudnetException, RuntimeError)):
            raise err
        check(not os.path.exists(out), "an output file was left behind")
        return Out(states=[digest("refused")])
    if err is not None:
        times = [p["t"] for p in profs]
        if inst == "ct25k" and isinstance(err, ZeroDivisionError) and times != sorted(set(times)):
            return Out(states=[digest("ct-order")])  # the reader library needs them in order
        raise err
    f = ncio.read(out)
    v = {k: x["data"] for k, x in f["vars"].items()}
    check(f["dims"]["time"] == len(rows), lambda: f"{f['dims']['time']} profiles instead of {len(rows)}")
    d = DAY + datetime.timedelta(days=day)
    a = f["attrs"]
    check((a["year"], a["month"], a["day"]) == (str(d.year), f"{d.month:02d}", f"{d.day:02d}"), lambda: f"date {a['year'], a['month'], a['day']}")
    check(f["vars"]["time"]["attrs"]["units"] == f"hours since {d} 00:00:00 +00:00", "time unit")
    hours = [(r[0]["t"] - 86400 * day) / 3600 for r in rows]
    check(ncio.same(v["time"], hours, 2e-7), lambda: f"times {v['time']} expected {hours}")
    check(ncio.same(v["range"], rng, 1e-6), lambda: f"range {v['range'][:4]} expected {rng[:4]}")
    zen = tilt(case, profs, rows)
    got = v["zenith_angle"]
    check(any(abs(got - z) < 1e-4 for z in zen), lambda: f"zenith angle {got} expected {zen}")
    h = [SITE["altitude"] + r * math.cos(math.radians(got)) for r in rng]
    check(ncio.same(v["height"], h, 1e-6), lambda: f"height {v['height'][:4]} expected {h[:4]}")
    check(abs(v["wavelength"] - WAVELENGTH[inst]) < 1e-3, lambda: f"wavelength {v['wavelength']}")
    default = 3e-12 if inst in ("chm15k", "chx") else 1.0
    c = default if cal is None else cal
    check(ncio.same(v["calibration_factor"], f32(c), 1e-6), lambda: f"calibration factor {v['calibration_factor']}")
    check(MODEL[inst] in a["source"], lambda: f"source {a['source']}")
    check(a["cloudnet_file_type"] == "lidar" and a["location"] == "Bunker", "file attributes")
    if inst in lidar.NETCDF:
        serial = {"chm15k": "CHM170137", "chx": "CHX080082"}.get(inst, "V4610983")
        if o.get("serial", True):
            check(a.get("serial_number") == serial, lambda: f"serial number {a.get('serial_number')}")
    n = len(rows)
    loc = [v["latitude"], v["longitude"], v["altitude"]]
    check(loc in ([51.25, -1.5, 100.0], [[51.25] * n, [-1.5] * n, [100.0] * n]), lambda: f"site location {loc}")
    for n, alts in enumerate(rows):
        want = [[None if b is None else b * c / default for b in p["beta"]] for p in alts]
        got = v["beta_raw"][n]
        hit = [i for i, w in enumerate(want) if ncio.same(got, w, 2e-6)]
        check(hit, lambda: f"profile {n} (time {hours[n]}): beta_raw {got[:16]} expected {want[0][:16]}")
        for key in ("beta", "beta_smooth"):
            if key not in v:
                continue
            b = v[key][n]
            check(all(x is None or (r is not None and x > 0) for x, r in zip(b, got)), f"{key}: missing or negative signal in profile {n}")
        b = v["beta"][n]
        check(all(x is None or x == r for x, r in zip(b, got)), f"profile {n}: beta differs from beta_raw")
        if got[CLOUD[0]] is not None and c / default < 10:
            check(all(b[j] is not None for j in CLOUD), f"profile {n}: cloud removed from beta")
            if inst != "ct25k":
                check(all(ncio.same(v["beta_smooth"][n][j], got[j], 1e-6) for j in CLOUD), f"profile {n}: cloud changed in beta_smooth")
                check(all(b[j] is not None for j in AEROSOL), f"profile {n}: aerosol removed from beta")
        if inst == "cl61d":
            p = [alts[i] for i in hit]
            dr = v["depolarisation_raw"][n]
            p = [q for q in p if ncio.same(dr, q["depol"], 2e-6)]
            check(p, lambda: f"depolarisation_raw {dr[:12]} expected {alts[0]['depol'][:12]}")
            dd = [None if b[j] is None or x is None or not 0 < x <= 1 else x for j, x in enumerate(p[0]["depol"])]
            check(ncio.same(v["depolarisation"][n], dd, 2e-6), lambda: f"depolarisation {v['depolarisation'][n][:17]} expected {dd[:17]}")
    return Out(states=[digest([inst, len(rows), day, [len(r) for r in rows], sorted(o)])], transitions=len(case["w"]))


# PollyXT ------------------------------------------------------------------------------

NP = 11
CHANNELS = ("1064", "532", "355")


def polly_profile(sym, i, ng):
    p = {"t": float(TIMES[sym[0]]), "i": i}
    b = [1e-6 * (1 + i) + 1e-8 * j for j in range(ng)]
    snr = [10.0 + i + j for j in range(ng)]
    d = [0.125 + 0.0625 * (i % 6) + 0.001 * j for j in range(ng)]
    snr[1], snr[2], snr[9] = 1.5, 2.5, None
    b[3], b[6], b[8] = -1e-7, None, float("nan")
    d[4], d[5], d[7], d[10] = 1.5, -0.25, None, 0.0
    if "m" in sym[1:]:
        b = [None] * ng
    if "n" in sym[1:]:
        b = [float("nan")] * ng
    p["beta"], p["snr"], p["depol"] = b, snr, d
    return p


def polly_write(d, n, f, profs, o):
    base = EPOCH
    stem = os.path.join(d, f"2021_03_04_Thu_CPV_{n:02d}_00_31")
    ng = NP
    rng = {"std": [7.0 + 30.0 * j for j in range(ng)], "alt": [7.0 + 31.0 * j for j in range(ng)]}[f.get("range", "std")]
    th = ["time", "height"]
    unit = {"unit": "seconds since 1970-01-01 00:00:00 UTC"}
    times = [base + p["t"] for p in profs]

    def grid(key, scale=1.0, off=False, **attrs):
        data = [[None if x is None else 0.0 if off == 2 else x * scale for x in p[key]] for p in profs]
        if off == 1:
            data = [[None] * ng for p in profs]
        return {"dims": th, "dtype": "f8", "fill": -999.0, "data": data, "attrs": attrs}

    v = {
        "time": {"dims": ["time"], "dtype": "f8", "data": times, "attrs": unit},
        "height": {"dims": ["height"], "dtype": "f8", "data": rng, "attrs": {"unit": "m"}},
    }
    off = {"1064": {"": 0, "no1064": 1, "zero1064": 2, "only355": 1}, "532": {"only355": 2}, "355": {}}
    for c, ch in enumerate(CHANNELS):
        dead = off[ch].get(f.get("ch", ""), 0)
        v[f"attenuated_backscatter_{ch}nm"] = grid("beta", 1 + c, dead, Lidar_calibration_constant_used=1e13 * (n + 1) + 1e11 * c)
        if f.get("snr", True):
            v[f"SNR_{ch}nm"] = grid("snr", 1.0)
    attrs = {} if o.get("nosource") else {"source": "PollyXT_CPV"}
    dims = {"time": len(profs), "height": ng}
    if f.get("bsc", True):
        ncio.write(stem + "_att_bsc.nc", {"dims": dims, "vars": v, "attrs": attrs})
    vol = f.get("vol", "ok")
    t2 = [t + (1.0 if vol == "shift" else 0.004 if vol == "near" else 0.0) for t in times]
    vp, vt, vdims = profs, t2, dims
    if vol == "short":
        vp, vt, vdims = profs[:-1], t2[:-1], {"time": len(profs) - 1, "height": ng}
    v2 = {
        "time": {"dims": ["time"], "dtype": "f8", "data": vt, "attrs": unit},
        "height": {"dims": ["height"], "dtype": "f8", "data": [x + (1.0 if vol == "range" else 0.0) for x in rng], "attrs": {"unit": "m"}},
        "volume_depolarization_ratio_532nm": {"dims": th, "dtype": "f8", "fill": -999.0, "data": [p["depol"] for p in vp]},
    }
    if vol != "none":
        ncio.write(stem + "_vol_depol.nc", {"dims": vdims, "vars": v2, "attrs": attrs})


EPOCH = 86400 * (DAY - datetime.date(1970, 1, 1)).days


def nan_none(x):
    return None if x is None or x != x else x


def polly_expected(case):
    files = case["files"]
    o = case.get("o", {})
    if any(f.get("vol") == "none" or not f.get("bsc", True) for f in files):
        n1 = sum(f.get("bsc", True) for f in files)
        n2 = sum(f.get("vol") != "none" for f in files)
        if n1 != n2 or n1 == 0:
            raise Refused
        raise AssertionError("not a case")
    kinds = [(f.get("range", "std"), f.get("range", "std") + ("+" if f.get("vol") == "range" else "")) for f in files]
    flat = [a for a, _ in kinds] + [b for _, b in kinds]
    # the first of the most common ranges, backscatter files first
    best = max(dict.fromkeys(flat), key=flat.count)
    used = [n for n, (a, b) in enumerate(kinds) if a == best and b == best]
    if not used:
        raise Refused
    rng = [7.0 + (30.0 if best == "std" else 31.0) * j for j in range(NP)]
    state = [files[n].get("ch", "") for n in used]

    def has(n, ch):
        dead = {"1064": ("no1064", "zero1064", "only355"), "532": ("only355",), "355": ()}[ch]
        return files[n].get("ch", "") not in dead and any(nan_none(x) is not None for p in case["_profs"][n] for x in p["beta"])

    c = next((c for c, ch in enumerate(CHANNELS) if any(has(n, ch) for n in used)), None)
    if c is None:
        raise Refused
    rows = []
    for n in used:
        f = files[n]
        if f.get("vol") in ("shift", "short") or not f.get("snr", True):
            continue
        for p in case["_profs"][n]:
            dead = {"1064": ("no1064", "zero1064", "only355"), "532": ("only355",), "355": ()}[CHANNELS[c]]
            q = {**p, "cal": 1e13 * (n + 1) + 1e11 * c, "beta": [None if nan_none(x) is None else x * (1 + c) for x in p["beta"]]}
            if f.get("ch", "") in dead:
                zero = f["ch"] == "zero1064" or (f["ch"] == "only355" and c == 1)
                q["beta"] = [0.0 if zero and nan_none(x) is not None else None for x in p["beta"]]
                if zero:  # zeros are written over not-a-number too
                    q["beta"] = [None if x is None else 0.0 for x in p["beta"]]
            rows.append(q)
    if case.get("date", "day") is None:
        day = math.floor(rows[0]["t"] / 86400) if rows else 0
    else:
        day = 0
        rows = [p for p in rows if math.floor(p["t"] / 86400) == 0]
    groups = [[p for p in rows if p["t"] == t] for t in sorted({p["t"] for p in rows})]
    groups = [[p for p in g if any(x is not None for x in p["beta"])] for g in groups]
    groups = [g for g in groups if g]
    if not groups:
        raise Refused
    # of repeated time stamps an empty one may have been chosen
    for g in groups:
        n = len([p for p in rows if p["t"] == g[0]["t"]])
        g[0]["maybe"] = n > len(g)
    return rng, groups, day, c


def run_polly(case, tmp):
    from cloudnetpy.instruments import pollyxt2nc

    case = dict(case)
    o = case.get("o", {})
    i = 0
    case["_profs"] = []
    d = os.path.join(tmp, "raw")
    os.mkdir(d)
    order = list(enumerate(case["files"]))
    for n, f in order:
        profs = []
        for s in f["w"]:
            profs.append(polly_profile(s, i, NP))
            i += 1
        case["_profs"].append(profs)
        polly_write(d, n, f, profs, o)
    src = d
    if o.get("list"):
        names = [os.path.join(d, x) for x in sorted(os.listdir(d))]
        src = {"list": names, "reversed": names[::-1]}[o["list"]]
    before = {x: ncio.filehash(os.path.join(d, x)) for x in os.listdir(d)}
    meta = {**SITE, **o.get("meta", {})}
    out = os.path.join(tmp, "out.nc")
    date = {"day": DAY, "str": DAY.isoformat(), None: None}[case.get("date", "day")]
    from cloudnetpy.exceptions import CloudnetException

    try:
        rng, rows, day, c = polly_expected(case)
        refused = False
    except Refused:
        refused = True
    try:
        pollyxt2nc(src, out, meta, date=date)
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    check(before == {x: ncio.filehash(os.path.join(d, x)) for x in os.listdir(d)}, "raw files were changed")
    if refused:
        check(err is not None, "files without a usable profile of the day were accepted")
        if not isinstance(err, (CloudnetException, RuntimeError)):
            raise err
        check(not os.path.exists(out), "an output file was left behind")
        return Out(states=[digest("refused")])
    if err is not None:
        if isinstance(err, CloudnetException) and all(g[0]["maybe"] for g in rows):
            return Out(states=[digest("refused")])
        raise err
    f = ncio.read(out)
    v = {k: x["data"] for k, x in f["vars"].items()}
    a = f["attrs"]
    rows = [g for g in rows if not g[0]["maybe"] or any(abs(t - (g[0]["t"] - 86400 * day) / 3600) < 1e-6 for t in v["time"])]
    dd = DAY + datetime.timedelta(days=day)
    check((a["year"], a["month"], a["day"]) == (str(dd.year), f"{dd.month:02d}", f"{dd.day:02d}"), lambda: f"date {a['year'], a['month'], a['day']}")
    hours = [(g[0]["t"] - 86400 * day) / 3600 for g in rows]
    check(ncio.same(v["time"], hours, 1e-9), lambda: f"times {v['time']} expected {hours}")
    check(ncio.same(v["range"], rng, 1e-6), lambda: f"range {v['range'][:4]}")
    zen = float(meta.get("zenith_angle", 5))
    check(abs(v["zenith_angle"] - zen) < 1e-4, lambda: f"zenith angle {v['zenith_angle']} expected {zen}")
    check(ncio.same(v["height"], [100 + r * math.cos(math.radians(zen)) for r in rng], 1e-6), lambda: f"height {v['height'][:3]}")
    check(abs(v["wavelength"] - float(CHANNELS[c])) < 1e-3, lambda: f"wavelength {v['wavelength']} expected {CHANNELS[c]}")
    check("PollyXT" in a["source"], "source")
    if not o.get("nosource"):
        check(a.get("serial_number") == "pollyxt_cpv", lambda: f"serial number {a.get('serial_number')}")
    limit = meta.get("snr_limit", 2)
    check(f"{limit}" in f["vars"]["beta"]["attrs"]["comment"], "SNR threshold in the comment")
    for n, alts in enumerate(rows):
        msgs = []
        for p in alts:
            want = {
                "beta_raw": p["beta"], "depolarisation_raw": p["depol"], "calibration_factor": f32(p["cal"]),
                "beta": [None if s is None or s < limit or b is None or b < 0 else b for b, s in zip(p["beta"], p["snr"])],
                "depolarisation": [None if s is None or s < limit or x is None or not 0 <= x <= 1 else x for x, s in zip(p["depol"], p["snr"])],
            }
            msg = next((f"{k} {v[k][n]} expected {w}" for k, w in want.items() if not ncio.same(v[k][n], w, 2e-7)), None)
            if msg is None:
                break
            msgs.append(msg)
        else:
            raise Violation(f"profile {n} (time {hours[n]}): {msgs[0]}")
    return Out(states=[digest([len(rows), c, day])], transitions=i)


def run_polly_twice(case, tmp):
    """A file whose infrared channel is broken does not affect the files converted afterwards."""
    n = 0
    for k, c in enumerate(case["seq"]):
        d = os.path.join(tmp, str(k))
        os.mkdir(d)
        n += run_polly(c, d).transitions
    return Out(states=[digest(len(case["seq"]))], transitions=n, traces=len(case["seq"]))


def cases_polly(n):
    out = []
    syms = ["P", "A", "B", "Bm", "D", "N", "Cn"]
    for w in words(syms, n):
        for cut in range(len(w)):
            files = [{"w": list(w[:cut])}, {"w": list(w[cut:])}] if cut else [{"w": list(w)}]
            for date in ("day", "str", None):
                if date is None and not (ordered(w) and not any("m" in s or "n" in s for s in w[:1])):
                    continue
                if date == "str" and len(w) > 2:
                    continue
                out.append({"files": files, "date": date})
    return out


def cases_polly_files():
    out = []
    kinds = [
        {}, {"ch": "no1064"}, {"ch": "zero1064"}, {"ch": "only355"}, {"range": "alt"}, {"vol": "shift"}, {"vol": "near"},
        {"vol": "short"}, {"vol": "range"}, {"snr": False}, {"vol": "none"}, {"bsc": False},
    ]
    ws = (["A", "B"], ["C", "D"], ["E", "E"])
    for k in (1, 2, 3):
        for ks in itertools.product(kinds, repeat=k):
            if k == 3 and sum(bool(x) for x in ks) == 3 and len({str(x) for x in ks}) == 3:
                continue
            files = [{"w": ws[i], **x} for i, x in enumerate(ks)]
            n1 = sum(f.get("bsc", True) for f in files)
            n2 = sum(f.get("vol") != "none" for f in files)
            if n1 == n2 and (n1 < k):
                continue  # files of different times would be paired
            out.append({"files": files})
    for o in (
        {"list": "list"}, {"list": "reversed"}, {"nosource": True}, {"meta": {"zenith_angle": 6}}, {"meta": {"zenith_angle": 0}},
        {"meta": {"snr_limit": 3}}, {"meta": {"snr_limit": 12}}, {"meta": {"zenith_angle": 8.5, "snr_limit": 1}},
    ):
        for files in ([{"w": ["A", "B"]}], [{"w": ["B"]}, {"w": ["A", "C"]}], [{"w": ["P", "A"]}, {"w": ["B", "Cm"]}]):
            out.append({"files": files, "o": o})
    # as many profiles as gates
    for w in (["A", "B", "P", "C", "D", "E", "Em", "N", "C", "B", "A"], ["Am", "B", "C", "D", "E", "A", "A", "A", "A", "A", "A"]):
        out.append({"files": [{"w": w}]})
    return out


def cases_polly_seq():
    chans = ["", "no1064", "only355"]
    one = [{"files": [{"w": ["A", "B"], **({"ch": c} if c else {})}]} for c in chans]
    return [{"seq": list(s)} for k in (2, 3) for s in itertools.product(one, repeat=k)]


# Cases --------------------------------------------------------------------------------


def words(syms, n):
    for k in range(1, n + 1):
        yield from itertools.product(syms, repeat=k)


def ordered(w):
    t = [TIMES[s[0]] for s in w]
    return all(a < b for a, b in zip(t, t[1:])) and t[-1] - (t[0] // 86400) * 86400 < 86400


def cases_rows(n, inst):
    """Every word of profiles."""
    text = inst in lidar.TEXT
    syms = ["P", "A", "B", "Bt", "D", "N", "E"] if not text else ["P", "A", "B", "Bt", "Bx", "Ck", "D", "N"]
    if inst == "cl51":
        syms = ["P", "A", "B", "Bt", "Cx", "N"]
    o = {"model": "cs135"} if inst == "cs135" else {"model": "da10"} if inst == "da10" else {}
    out = []
    for w in words(syms, n):
        if len(w) == n and n > 3 and not any(s[0] in "PN" or len(s) > 1 for s in w):
            pass
        out.append({"inst": inst, "w": list(w), "o": o})
        if len(w) > 1 and (text or ordered(w)):
            out.append({"inst": inst, "w": list(w), "o": o, "date": None})
    return out


def cases_special():
    """Options of each instrument on a few words."""
    out = []

    def add(inst, words_, **o):
        base = {"model": inst} if inst in ("cs135", "da10") else {}
        for w in words_:
            for date in ("day", "str"):
                out.append({"inst": inst, "w": w.split(), "o": {**base, **o}, "date": date})

    w1 = ["A B C", "B A N", "P A B"]
    # text formats
    for inst in ("cl31", "cl51"):
        for msg, crlf, head, sep in itertools.product("12", (False, True), (False, True), (b"", b"\n", b"junk\n")):
            add(inst, w1[:1] if inst == "cl51" else w1, msg=msg, crlf=crlf, head=head, sep=sep)
        add(inst, ["As Bs C", "A Bs Ch", "Ah Bh Ch"], crlf=True)
        for cal in (0.5, 2.0, 1e-1):
            add(inst, w1[:2], cal=cal)
        add(inst, w1[:1], model="cl31")
        add(inst, w1[:1], model="cl51")
    for res in (5, 10, 20, 30):
        add("cl31", w1, res=res)
        add("cs135", w1, res=res)
    for msg, crlf, sep in itertools.product("27", (False, True), (b"", b"\n")):
        add("ct25k", w1, msg=msg, crlf=True, head=crlf, sep=sep)
        add("cs135", w1, msg={"2": "002", "7": "004"}[msg], crlf=crlf, sep=sep)
    for inst in ("ct25k", "cs135"):
        add(inst, ["As Bs C", "A Bs Ch", "Ah Bh Ch", "At Bt C", "At B C"], crlf=True)
        for cal in (0.5, 2.0):
            add(inst, w1[:2], cal=cal)
    add("ct25k", w1[:1], model="ct25k")
    add("cs135", ["Af Bf C", "A Af B"])
    # netCDF formats
    for inst in lidar.NETCDF:
        for cal in (None, *((1e-12, 6e-12) if inst[:2] == "ch" else (0.5, 2.0))):
            add(inst, [*w1, "A Bm C", "A Bg C", "Ag Bg Cg", "Am B C", "A Bq C", "Aq Bq Cq"], **({} if cal is None else {"cal": cal}))
        for t in ("time", "none", *(("scalar",) if inst[:2] == "ch" else ())):
            add(inst, ["A B C", "At Bt Ct", "At B C", "At Bt C", "P At Bt", "At Bt"], tilt=t)
        for dr in (5.0, 15.0, 100.0):
            add(inst, w1, dr=dr)
        for ng in (2 + 20, 24, 40):
            add(inst, w1, ng=ng)
        add(inst, [*w1, "A Bm C"], fill=9.96921e36)
    for inst in ("chm15k", "chx"):
        for key, serial in itertools.product(("beta_raw", "beta_att"), ("device_name", "source")):
            add(inst, w1, key=key, serial=serial)
        for old, nnr, nn in itertools.product((235, "2.1 2.3 0.556", "12.03.1 2.12 0.701", "1 2 0.69"), ("hi", "lo", "no"), ("nn1", "NN1")):
            add(inst, [*w1, "A Bm C"], version=old, old=True, nnr=nnr, nn=nn)
        for new in ("12.03.1 2.13 0.702", "12.03.1 2.13 0.743", "17.05.1 2.13 1.040 0", "1 2 1.0"):
            add(inst, w1, version=new)
        add(inst, w1, format="NETCDF4")
        add(inst, w1, model="chm15k")
    add("cl61d", [*w1, "A Bd C"], model="cl61d")
    add("cl61d", w1, serial=None)
    # one range gate for each profile of the file
    for inst in ("cl31", "chm15k", "cl61d", "cs135"):
        n = 24
        w = " ".join(["A", "B", "P", *["C"] * (n - 3)])
        add(inst, [w], ng=n)
    return out


def run(ctx):
    n = 4 if ctx.thorough else 3
    for inst in (*lidar.TEXT, *lidar.NETCDF):
        k = n - 1 if inst == "cl51" else n
        ctx.explore(f"rows-{inst}", run_lidar, cases_rows(k, inst), bound=f"all files of up to {k} profiles over the alphabet")
    ctx.explore("polly-rows", run_polly, cases_polly(n), bound=f"all words of up to {n} PollyXT profiles in up to two pairs of files")
    ctx.explore("polly-files", run_polly, cases_polly_files(), bound="all combinations of up to three kinds of file pairs")
    ctx.explore("polly-sequences", run_polly_twice, cases_polly_seq(), bound="all sequences of up to three conversions with different working channels")
    ctx.explore("options", run_lidar, cases_special(), bound="every option on the listed files")
