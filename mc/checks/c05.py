"""C05: cloud and rain radars writing netCDF files (MIRA, Copernicus, Galileo, BASTA, BOW-TIE, MRR-PRO).

A case lists the profiles of the raw files as words of symbols (time letter + kind letter, optional gate string),
the kind of radar and options.  The reference below decides from the same description which profiles and which
gates have to come out and with what values.
"""

import datetime
import itertools
import math
import os

import numpy as np

from .. import ncio
from ..core import Out, Violation, check, digest

LEVEL = "model_checking"
SITE = {"name": "Bunker", "latitude": 51.25, "longitude": -1.5, "altitude": 100.0}
DAY = datetime.date(2021, 3, 4)
EPOCH = 86400 * (DAY - datetime.date(1970, 1, 1)).days
TIMES = {"P": -660, "Z": 0, "A": 600, "B": 36000, "C": 36630, "D": 50400, "E": 86220, "N": 86400 + 330}
NAN = float("nan")

DATED = ("mira", "mrr")  # raw time stamps carry the date
MULTI = ("mira", "copernicus", "galileo", "mrr")
NOISE = {"copernicus": 50}  # gates above the signal, known to be empty


def f32(x):
    return float(np.float32(x))


def profile(sym, i, gates):
    """sym: time letter, kind letter (o t m r w p s)"""
    k = sym[1] if len(sym) > 1 else "o"
    p = {
        "t": TIMES[sym[0]] if sym[0] in TIMES else None, "i": i, "kind": k,
        "el": {"t": 80.0, "m": 89.0}.get(k, 90.0), "az": {"r": 130.0, "w": -240.0}.get(k, 120.0),
        "tpow": 1.25 if k == "p" else 20.0 + i, "g": [],
        "lwp": 100.0 + 10 * i, "rh": 50.0 + i, "rain": 3.6 * (i + 1),
        "yaw": 10.0 + i, "pitch": 1.0 + 0.25 * i, "roll": -1.0 - 0.25 * i,
    }
    for j, g in enumerate(gates):
        x = {
            "Zh": -10.0 + 2.5 * i + 0.5 * j, "v": -2.0 + 0.25 * (i % 8) + 0.125 * j, "width": 0.25 + 0.125 * (i % 6) + 0.0625 * j,
            "ldr": -30.0 + 0.5 * (i % 9) + 0.25 * j, "SNR": 20.0 + i + j, "kurt": 3.0 + 0.25 * i, "skew": 0.25 * j - 0.25 * i,
            "rr": 1.8 * (1 + i + j), "lwc": 0.25 * (1 + i + j), "pia": 0.125 * (i + j), "bg": 1,
        }
        if g == "m":
            x = {**dict.fromkeys(x), "bg": 1}
        elif g == "n":
            x = {**dict.fromkeys(x, NAN), "bg": 1}
        elif g == "s" or k == "s":
            x["SNR"] = -25.0
            x["bg"] = -1
        elif g == "b":
            x["bg"] = 0
        elif g in "zvwl":
            x[{"z": "Zh", "v": "v", "w": "width", "l": "ldr"}[g]] = None
        elif g == "c":
            x["Zh"], x["ldr"] = -20.0 - i, -3.0
        elif g == "k":
            x["Zh"] = -20.0 - i
        elif g == "h":
            x["Zh"], x["ldr"] = 5.0 + i, -3.0
        elif g == "x":
            x["width"] = 3.5
        elif g == "y":
            x["v"] = -9.5
        p["g"].append(x)
    return p


def miss(x):
    return x is None or x != x


def lin(x):
    return x if miss(x) else 10 ** (x / 10)


# Raw files ----------------------------------------------------------------------------


def write(path, radar, profs, o):
    n, ng = len(profs), len(profs[0]["g"])
    tr = ["time", "range"]
    raw = o.get("fill", -999.0)

    def grid(key, fn=lambda x: x):
        return {"dims": tr, "dtype": "f4", "fill": raw, "data": [[fn(x[key]) for x in p["g"]] for p in profs]}

    def series(key, dtype="f4"):
        return {"dims": ["time"], "dtype": dtype, "data": [p[key] for p in profs]}

    rng = {"dims": ["range"], "dtype": "f4", "data": gates_m(radar, ng, o), "attrs": {"units": "m"}}
    dims = {"time": None, "range": ng}
    day = {"year": "2021", "month": "03", "day": "04"}
    sec = [float(p["t"]) for p in profs]
    v, attrs = {"range": rng}, {}
    if radar == "mira":
        v["time"] = {"dims": ["time"], "dtype": "i4", "data": [EPOCH + p["t"] for p in profs]}
        for name, val in (("nfft", 512), ("prf", 5000), ("nave", 30), ("rg0", 5)):
            v[name] = {"dtype": "i4", "data": val}
        v["NyquistVelocity"] = {"dtype": "f4", "data": o.get("nyq", 10.5)}
        v["tpow"] = series("tpow")
        if not o.get("noangles"):
            v["elv"], v["azi"] = series("el"), series("az")
        names = o.get("names", "g")
        sets = {"g": ["g"], "2l": ["h2l"], "both": ["g", "h2l"], "Ze": ["g"]}[names]
        for s in sets:
            wrong = (lambda x: None) if names == "both" and s == "g" else (lambda x: x)
            z = {"g": "Ze" if names == "Ze" else "Zg", "h2l": "Zh2l"}[s]
            v[z] = grid("Zh", lambda x, w=wrong: lin(w(x)))
            v["VEL" + s] = grid("v", wrong)
            v["RMS" + s] = grid("width", wrong)
            v["LDR" + s] = grid("ldr", lambda x, w=wrong: lin(w(x)))
            v["SNR" + s] = grid("SNR", lambda x, w=wrong: lin(w(x)))
        hrd = {"XMT": "35.1e9", "SN": o.get("sn", "mbr5"), "POL": o.get("pol", "1")}
        if o.get("fzk100"):
            hrd["FZK100"] = "1.00000"
        attrs = {
            "hrd": "\n".join(["HEADER", *(f"{k}:  {x}" for k, x in hrd.items())]) + "\n",
            "Latitude": "47.25N", "Longitude": "7.5E", "Altitude": "920m", "source": "x",
        }
    elif radar in ("copernicus", "galileo"):
        v["time"] = {"dims": ["time"], "dtype": "f8", "data": sec, "attrs": {"units": "seconds since 2021-03-04 00:00:00 +00:00"}}
        rng["attrs"]["range_offset"] = np.float32(o.get("roff", 0.0))
        for name, val in (
            ("antenna_diameter", 2.5), ("beamwidthV", 0.25), ("beamwidthH", 0.5), ("height", 85.0),
            ("latitude", 51.5), ("longitude", 358.5),
        ):
            v[name] = {"dtype": "f4", "data": val, "attrs": {"units": "m"}}
        v["elevation"], v["azimuth"] = series("el"), series("az")
        v["ZED_HC"] = grid("Zh")
        v["ZED_HC"]["attrs"] = {"applied_calibration_offset": np.float32(o.get("coff", 0.0))}
        v["VEL_HC"] = grid("v")
        v["VEL_HC"]["attrs"] = {"folding_velocity": np.float32(o.get("nyq", 10.5))}
        v["SPW_HC"], v["SNR_HC"] = grid("width"), grid("SNR")
        v["LDR_C" if radar == "copernicus" else "LDR_HC"] = grid("ldr")
    elif radar == "basta":
        v["time"] = {"dims": ["time"], "dtype": "f8", "data": sec, "attrs": {"units": "seconds since 2021-03-04 00:00:00"}}
        v["elevation"] = {"dtype": "f4", "data": o.get("el", 90.0)}
        v["ambiguous_velocity"] = {"dtype": "f4", "data": o.get("nyq", 10.5)}
        v["reflectivity"], v["velocity"] = grid("Zh"), grid("v")
        v["background_mask"] = {"dims": tr, "dtype": "i1", "data": [[x["bg"] for x in p["g"]] for p in profs]}
        v["radar_pitch"], v["radar_yaw"], v["radar_roll"] = series("pitch"), series("yaw"), series("roll")
        attrs = day
    elif radar == "bowtie":
        base = 86400 * (DAY - datetime.date(2020, 1, 1)).days
        v["time"] = {"dims": ["time"], "dtype": "f8", "data": [base + x for x in sec], "attrs": {"units": "seconds since 2020-01-01T00:00:00+00:00"}}
        for a, b in (("Zh", "Zh"), ("v", "v"), ("width", "width"), ("ldr", "ldr"), ("kurt", "kurt"), ("Skew", "skew"), ("SNR", "SNR")):
            v[a] = grid(b)
        v["lwp"], v["SurfRelHum"], v["rain"] = series("lwp"), series("rh"), series("rain")
        dims["chirp"] = 2
        v["Nyquist_velocity"] = {"dims": ["chirp"], "dtype": "f4", "data": [9.0, 6.5]}
        v["range_offsets"] = {"dims": ["chirp"], "dtype": "f8", "data": [1.0, 2.0]}
        attrs = day
    elif radar == "mrr":
        v["time"] = {"dims": ["time"], "dtype": "f8", "data": [float(EPOCH + p["t"]) for p in profs], "attrs": {"units": "seconds since 1970-01-01T00:00:00Z"}}
        v["elevation"] = series("el")
        v["RR"], v["LWC"], v["WIDTH"] = grid("rr"), grid("lwc"), grid("width")
        v["VEL"], v["Ze"], v["PIA"] = grid("v"), grid("Zh"), grid("pia")
        attrs = {"instrument_name": "METEK MRR Pro 1.1.23, ID: X1, METEK Serial Number: 0511107"}
    if o.get("nan"):  # missing values are NaN, as METEK writes them
        for x in v.values():
            if x.get("dims") == tr and x["dtype"] == "f4":
                x["fill"] = NAN if o["nan"] == "fill" else None
                x["data"] = [[NAN if y is None else y for y in row] for row in x["data"]]
    ncio.write(path, {"format": o.get("format", "NETCDF4"), "dims": dims, "vars": v, "attrs": attrs})


def gates_m(radar, ng, o):
    lo = o.get("lo", 200.0)
    return [lo + 32.0 * j for j in range(ng)]


# Reference ----------------------------------------------------------------------------


class Refused(Exception):
    pass


LIMITS = {"mira": (1.1, 1e-6, 1e-3), "copernicus": (1.1, 0.5, 0.1), "galileo": (1.1, 0.1, 0.1)}


def select(radar, profs, o):
    """Pointing and power rules on time-ordered profiles."""
    if radar == "mira":
        k = 100 if o.get("sn") == "fzk" and not o.get("fzk100") else 1
        low = 0.5 if o.get("model") == "mira-35c" else 5
        profs = [p for p in profs if p["tpow"] * k >= low]
        if not profs:
            raise Refused
    if radar not in LIMITS:
        return profs, list(range(len(profs)))
    if len(profs) < 2:
        raise Refused
    if radar == "mira" and o.get("noangles"):
        return profs, list(range(len(profs)))
    a, de, da = LIMITS[radar]
    zo = o.get("zo") or 0.0
    keep = []
    for i, p in enumerate(profs):
        q = profs[i - 1] if i else profs[1]
        d = (p["az"] - q["az"] + 180) % 360 - 180
        if abs(p["el"] - zo - 90) < a and abs(p["el"] - q["el"]) < de and abs(d) < da:
            keep.append(i)
    if len(keep) < 2:
        raise Refused
    return profs, keep


def clean(radar, profs, ranges, o):
    """Rows of gates (dict name -> value or None) of the time-ordered profiles after noise screening."""
    rows = [[{k: (None if miss(x) else x) for k, x in g.items()} for g in p["g"]] for p in profs]

    def drop(g, *keys):
        for k in keys or [x for x in g if x != "bg"]:
            g[k] = None

    for p, row in zip(profs, rows):
        top = [g["SNR"] for g in row[-50:] if g["SNR"] is not None]
        for j, g in enumerate(row):
            if radar == "mira":
                lim = o.get("snr_limit")
                lim = lim if lim is not None else (-30 if o.get("model") == "mira-10" else -17)
                if g["SNR"] is not None and g["SNR"] < lim:
                    drop(g)
            elif radar == "galileo":
                if g["SNR"] is not None and g["SNR"] < o.get("snr_limit", 3):
                    drop(g)
                if j < 15 and g["Zh"] is not None and g["ldr"] is not None and g["Zh"] < -15 and g["ldr"] > -5:
                    drop(g, "v")
            elif radar == "copernicus":
                if g["SNR"] is not None and top and g["SNR"] < sum(top) / len(top) + 2:
                    drop(g, "Zh")
                if (g["width"] is not None and g["width"] > 3) or (g["v"] is not None and abs(g["v"]) > 9):
                    drop(g, "v")
                if ranges[j] < 150:
                    drop(g, "v")
            elif radar == "basta":
                if g["bg"] != 1:
                    drop(g)
            if radar in LIMITS and (g["Zh"] is None or g["v"] is None):
                drop(g)
    if radar == "mira":
        if o.get("pol") == "0":
            for row in rows:
                for g in row:
                    g.pop("ldr")
        else:
            # judged before the velocity mask; the words keep both readings equal
            x = [g["ldr"] for row in rows for g in row if g["ldr"] is not None]
            if x and sum(x) / len(x) > 0:
                for row in rows:
                    for g in row:
                        g["ldr"] = None
    return rows


NAMES = {
    "mira": {k: (k, None) for k in ("Zh", "v", "width", "ldr", "SNR")},
    "copernicus": {k: (k, None) for k in ("Zh", "v", "width", "ldr", "SNR")},
    "galileo": {k: (k, None) for k in ("Zh", "v", "width", "ldr", "SNR")},
    "basta": {k: (k, None) for k in ("Zh", "v")},
    "bowtie": {**{k: (k, None) for k in ("Zh", "v", "width", "ldr", "SNR")}, "kurt": ("kurtosis", None), "skew": ("skewness", None)},
    "mrr": {
        "Zh": ("Zh", None), "v": ("v", lambda x: -x), "width": ("width", None), "pia": ("pia", None),
        "rr": ("rainfall_rate", lambda x: x / 3.6e6), "lwc": ("lwc", lambda x: x / 1000),
    },
}


def expect(radar, sel, o):
    """-> expected variables of the file, or Refused"""
    if not sel:
        raise Refused
    ng = len(sel[0]["g"])
    raw_range = gates_m(radar, ng, o)
    sel, keep = select(radar, sel, o)
    rows = clean(radar, sel, raw_range, o)
    rng, gates = list(raw_range), list(range(ng))
    want = {}
    alt = o.get("alt_expected", SITE["altitude"])
    if radar == "copernicus":
        off = o.get("range_offset", -720.0)
        rng = [x - o.get("roff", 0.0) + off for x in rng]
        gates = [j for j in gates if rng[j] >= 0]
        zoff = o.get("Zh_offset", -149.5)
        for row in rows:
            for g in row:
                if g["Zh"] is not None:
                    g["Zh"] += zoff - o.get("coff", 0.0)
        want["range_offset"], want["Zh_offset"] = off, zoff
    elif radar == "galileo":
        gates = [j for j in gates if rng[j] > 0]
    elif radar == "mrr":
        rng = [x - rng[0] for x in rng]
    if o.get("rcf") and radar != "copernicus":
        rng = [x * o["rcf"] for x in rng]
        want["range"] = rng
    sel, rows = [sel[i] for i in keep], [rows[i] for i in keep]
    rng = [rng[j] for j in gates]
    rows = [[row[j] for j in gates] for row in rows]
    if radar != "mrr" and all(g["v"] is None for row in rows for g in row):
        raise Refused
    want["time"] = [p["t"] / 3600 % 24 for p in sel]
    want["range"] = rng
    for k, (name, fn) in NAMES[radar].items():
        if radar == "mira" and k == "ldr" and o.get("pol") == "0":
            want["ldr"] = "absent"
            continue
        want[name] = [[None if g[k] is None else (fn(g[k]) if fn else g[k]) for g in row] for row in rows]
    n = len(sel)
    zen = [90 - (p["el"] - (o.get("zo") or 0.0)) for p in sel]
    tilt = 0.0
    if radar in LIMITS and not o.get("noangles"):
        want["zenith_angle"] = zen
        want["azimuth_angle"] = [p["az"] + (o.get("ao") or 0.0) for p in sel]
        tilt = float(np.median(zen))
    elif radar == "mrr":
        want["zenith_angle"] = [90 - p["el"] for p in sel]
        tilt = float(np.median(want["zenith_angle"]))
    elif radar == "basta":
        want["zenith_angle"] = tilt = 90 - o.get("el", 90.0)
        for a in ("pitch", "yaw", "roll"):
            want["radar_" + a] = [p[a] for p in sel]
    want["height"] = [x * math.cos(math.radians(tilt)) + alt for x in rng]
    want["altitude"], want["latitude"], want["longitude"] = alt, SITE["latitude"], SITE["longitude"]
    want["radar_frequency"] = {"mira": 35.1, "copernicus": 34.96, "galileo": 94.0, "basta": 95.0, "bowtie": 94.0, "mrr": 24.23}[radar]
    if radar == "mira":
        k = 100 if o.get("sn") == "fzk" and not o.get("fzk100") else 1
        want["tpow"] = [p["tpow"] * k for p in sel]
        want["nfft"], want["prf"], want["nave"], want["rg0"] = 512, 5000, 30, 5
        want["nyquist_velocity"] = o.get("nyqs") and [o["nyqs"][p["file"]] for p in sel] or o.get("nyq", 10.5)
        if o.get("zo") is not None:
            want["zenith_offset"] = o["zo"]
        if o.get("ao") is not None:
            want["azimuth_offset"] = o["ao"]
        lim = o.get("snr_limit")
        want["snr_limit"] = lim if lim is not None else (-30 if o.get("model") == "mira-10" else -17)
    elif radar == "galileo":
        want["nyquist_velocity"], want["snr_limit"] = o.get("nyq", 10.5), o.get("snr_limit", 3)
    elif radar in ("copernicus", "basta"):
        want["nyquist_velocity"] = o.get("nyq", 10.5)
    elif radar == "bowtie":
        want["nyquist_velocity"] = [[9.0, 6.5]] * n
        want["chirp_start_indices"] = [[1, 2]] * n
        want["lwp"] = [p["lwp"] / 1000 for p in sel]
        want["relative_humidity"] = [p["rh"] / 100 for p in sel]
        want["rainfall_rate"] = [p["rain"] / 3.6e6 for p in sel]
        want["correction_bits"] = [[None if g["v"] is None else 1 for g in row] for row in rows]
    if radar in ("copernicus", "galileo"):
        want["antenna_diameter"], want["beamwidthV"], want["beamwidthH"] = 2.5, 0.25, 0.5
    return want


def spread(x, like):
    """Repeats a constant to the shape it has in the file."""
    if isinstance(like, list) and not isinstance(x, list):
        return [spread(x, y) for y in like]
    if isinstance(like, list) and like and isinstance(like[0], list) and x and not isinstance(x[0], list):
        if len(x) == len(like):
            return [spread(a, b) for a, b in zip(x, like)]
        return [x for _ in like]
    return x


LOOSE = {
    "nyquist_velocity", "nfft", "prf", "nave", "rg0", "antenna_diameter", "beamwidthV", "beamwidthH", "zenith_angle",
    "latitude", "longitude", "altitude", "chirp_start_indices", "azimuth_angle",
}


def compare(got, want, day):
    v = got["vars"]
    for name, x in want.items():
        if isinstance(x, str):
            check(name not in v, lambda: f"{name} should not be there")
            continue
        check(name in v, lambda: f"{name} is missing")
        y = v[name]["data"]
        if name in LOOSE:
            x = spread(x, y)
        check(ncio.same(x, y, 1e-5), lambda: f"{name} is {str(y)[:300]}, should be {str(x)[:300]}")
    check(v["time"]["attrs"]["units"] == f"hours since {day} 00:00:00 +00:00", lambda: f"time units {v['time']['attrs']['units']}")
    a = got["attrs"]
    check((a["year"], a["month"], a["day"]) == tuple(day.isoformat().split("-")), "date attributes")
    check(got["dims"]["time"] == len(want["time"]) and got["dims"]["range"] == len(want["range"]), "dimensions")


def parse(word, i0, gates, k):
    out = []
    for n, sym in enumerate(word):
        s, _, g = sym.partition(":")
        out.append({**profile(s, i0 + n, g or gates), "file": k})
    return out


def run_case(case, tmp) -> Out:
    """case: radar, files [[sym...]...], date True|False|'obj'|'other', how file|dir|list, gates, o{}"""
    from cloudnetpy import instruments
    from cloudnetpy.exceptions import RadarDataError, ValidTimeStampError

    radar = case["radar"]
    o = dict(case.get("o", {}))
    gates = case.get("gates", "...")
    if radar == "copernicus":
        o = {"roff": -720.0, "coff": -149.5, **o}
    i, profs, paths = 0, [], []
    d = os.path.join(tmp, "raw")
    os.mkdir(d)
    suffix = {"mira": o.get("suffix", "mmclx")}.get(radar, "nc")
    for k, word in enumerate(case["files"]):
        part = parse(word, i, gates, k)
        if radar in NOISE:
            for p in part:
                noise = profile("Ao", 0, "." * NOISE[radar])["g"]
                for x in noise:
                    x["SNR"] = -10.0
                p["g"] = p["g"] + noise
        if case.get("square"):  # as many gates as profiles in all
            total = sum(len(w) for w in case["files"])
            for p in part:
                p["g"] = (p["g"] * total)[:total] if radar not in NOISE else p["g"]
        i += len(part)
        oo = dict(o)
        if o.get("nyqs"):
            oo["nyq"] = o["nyqs"][k]
        path = os.path.join(d, f"f{k}.{suffix}")
        write(path, radar, part, oo)
        profs += part
        paths.append(path)
    how = case.get("how", "file" if len(paths) == 1 else ("dir" if radar != "mrr" else "list"))
    given = {"file": paths[0], "dir": d, "list": list(reversed(paths))}[how]
    site = {**SITE, **{k: o[k] for k in ("snr_limit", "model", "Zh_offset", "range_offset") if k in o}}
    for a, b in (("zo", "zenith_offset"), ("ao", "azimuth_offset"), ("rcf", "range_correction_factor")):
        if a in o:
            site[b] = o[a]
    dated = case.get("date", True)
    date = {True: DAY.isoformat(), False: None, "obj": DAY, "other": "2021-03-05"}[dated]
    rows = profs
    if dated and radar in DATED:
        day = DAY if dated != "other" else datetime.date(2021, 3, 5)
        rows = [p for p in rows if DAY + datetime.timedelta(p["t"] // 86400) == day]
    elif dated == "other":
        rows = []
    by = {}
    for p in rows:
        by.setdefault(p["t"], []).append(p)
    options, refusals = [], 0
    combos = itertools.product(*(by[t] for t in sorted(by)))
    for sel in itertools.islice(combos, 64):
        try:
            options.append(expect(radar, [dict(p, g=[dict(g) for g in p["g"]]) for p in sel], o))
        except Refused:
            refusals += 1
    hashes = [ncio.filehash(p) for p in paths]
    out = os.path.join(tmp, "out.nc")
    fn = getattr(instruments, radar + "2nc")
    try:
        uuid = fn(given, out, site, date=date)
    except (ValidTimeStampError, RadarDataError):
        check(refusals, "refused although the file has usable profiles")
        check(not os.path.exists(out), "left an output file behind after refusing")
        return Out(states=["refused"], transitions=len(profs))
    check(options, "accepted although there is nothing usable")
    got = ncio.read(out)
    err, ok = None, None
    for want in options:
        try:
            compare(got, want, DAY if dated != "other" else datetime.date(2021, 3, 5))
            ok = want
            break
        except Violation as e:
            err = err or e
    if ok is None:
        raise err
    check(got["attrs"]["file_uuid"] == str(uuid), "returned UUID is not that of the file")
    if radar == "mrr":
        check(got["attrs"].get("serial_number") == "0511107", "serial number lost")
    check(hashes == [ncio.filehash(p) for p in paths], "input file was changed")
    return Out(states=[digest(ok)], transitions=len(profs))


RADARS = ("mira", "copernicus", "galileo", "basta", "bowtie", "mrr")


def words(symbols, depth, low=1):
    for n in range(low, depth + 1):
        yield from (list(w) for w in itertools.product(symbols, repeat=n))


def cases_times(depth):
    for r in RADARS:
        syms = "PABEN" if r in DATED else "ABCE"
        if r == "bowtie":  # processed daily files, taken as they are
            for n in range(1, 6):
                for w in itertools.combinations("ZABCDE", n):
                    if w == ("Z",):
                        continue
                    yield {"radar": r, "files": [list(w)], "square": n in (2, 4)}
                    for date in (False, "obj", "other"):
                        yield {"radar": r, "files": [list(w)], "date": date}
            continue
        for w in words(syms, depth):
            yield {"radar": r, "files": [w]}
        for w in words("ZAB", 3, 2):
            if {"A", "B"} & set(w):
                yield {"radar": r, "files": [w]}
        for w in words("ABC", 3):
            yield {"radar": r, "files": [w], "date": False}
            yield {"radar": r, "files": [w], "date": "obj"}
            yield {"radar": r, "files": [w], "date": "other"}
        if r in DATED:
            for w in words("ABN", 3):
                yield {"radar": r, "files": [w], "date": "other"}
        # as many profiles as gates
        for w in words(syms, min(depth, 4), 2):
            yield {"radar": r, "files": [w], "square": True}


def cases_split(depth):
    for r in MULTI:
        syms = "PABN" if r in DATED else "ABC"
        hows = {"mira": ("dir", "list"), "mrr": ("dir", "list")}.get(r, ("dir",))
        for a in words(syms, 2):
            for b in words(syms, 2):
                for how in hows:
                    yield {"radar": r, "files": [a, b], "how": how}
        for abc in itertools.product(words(syms, 1 if depth < 4 else 2), repeat=3):
            yield {"radar": r, "files": list(abc), "how": hows[-1]}
        for w in words("AB", 2):
            yield {"radar": r, "files": [w], "how": "dir"}
    for a in words("ABt", 1):
        for nyqs in itertools.product((10.5, 7.25), repeat=3):
            yield {"radar": "mira", "files": [["A"], ["B"], ["C", "D"]], "o": {"nyqs": nyqs}}
    for w in words("ABC", 3):
        for cut in range(1, len(w)):
            yield {"radar": "mira", "files": [w[:cut], w[cut:]], "o": {"nyqs": [10.5, 7.25]}}


def cases_pointing(depth):
    times = "ABCDE"
    for r in ("mira", "copernicus", "galileo"):
        kinds = "otmrws" + ("p" if r == "mira" else "")
        for ks in words(kinds if r != "copernicus" else kinds[:5], depth, 2):
            w = [times[i] + k for i, k in enumerate(ks)]
            yield {"radar": r, "files": [w]}
            if len(ks) == 3:
                yield {"radar": r, "files": [w], "square": True}
                yield {"radar": r, "files": [w[:1], w[1:]], "how": "dir"}
                yield {"radar": r, "files": [[w[2], w[0], w[1]]]}
    # mixed with repeated and unordered times
    for r in ("mira", "copernicus", "galileo"):
        for ts in words("AAB", 3, 3):
            for ks in words("ot" + ("p" if r == "mira" else ""), 3, 3):
                yield {"radar": r, "files": [[a + b for a, b in zip(ts, ks)]]}
    # rain radars and lidars-like pointing: the angle itself is kept
    for ks in words("otm", 3):
        w = [times[i] + k for i, k in enumerate(ks)]
        yield {"radar": "mrr", "files": [w]}
        yield {"radar": "mrr", "files": [["P" + ks[0], *w]]}
        yield {"radar": "mrr", "files": [[*reversed(w), "N" + ks[-1]]]}


GATES = {
    "mira": ".mnszvwl", "copernicus": ".mzvwlsxy", "galileo": ".mszvwlckh", "basta": ".mnszvb", "bowtie": ".mnzvwl",
    "mrr": ".mnzvw",
}


def cases_gates(depth):
    for r in RADARS:
        for g in words(GATES[r], 2, 1):
            yield {"radar": r, "files": [["A:" + "".join(g)]]}
        for g in words(GATES[r], depth, 2):
            n = "".join(g)
            yield {"radar": r, "files": [["A:" + n, "B:" + n[::-1]]]}
        few = GATES[r] if depth > 2 else GATES[r][0] + GATES[r][-3:]
        for a, b in itertools.product(words(few, 2, 2), repeat=2):
            yield {"radar": r, "files": [["A:" + "".join(a), "B:" + "".join(b)]]}
    for r in ("mira", "mrr", "bowtie"):
        for nan in ("fill", "plain"):
            for a in words(".mzv", 2, 2):
                for b in words(".mzv", 2, 2):
                    yield {"radar": r, "files": [["A:" + "".join(a), "B:" + "".join(b)]], "o": {"nan": nan}}


def cases_options():
    m = {"radar": "mira"}
    for suffix, names in (("znc", "g"), ("znc", "2l"), ("znc", "both"), ("mmclx", "g"), ("mmclx", "Ze")):
        for w in words("PAB", 3):
            for g in ("...", ".s.", "z.v"):
                yield {**m, "files": [w], "gates": g, "o": {"suffix": suffix, "names": names}}
        for w in words("ABN", 2):
            yield {**m, "files": [["B"], w], "o": {"suffix": suffix, "names": names}}
    for fmt in ("NETCDF3_CLASSIC", "NETCDF4_CLASSIC"):
        for r in RADARS:
            for w in (["A"], ["B"], ["A", "B"]):
                yield {"radar": r, "files": [w], "o": {"format": fmt}}
    for model in ("mira-35", "mira-35s", "mira-35c", "mira-10"):
        for snr in (None, -30, -25.5, -17, 0, 21, 22.5):
            for ks in words("op", 3, 2):
                w = ["ABC"[i] + k for i, k in enumerate(ks)]
                o = {"model": model, "snr_limit": snr}
                if snr is None:
                    o.pop("snr_limit")
                yield {**m, "files": [w], "gates": ".s.", "o": o}
    for sn, fzk100 in itertools.product(("fzk", "mbr5"), (False, True)):
        for ks in words("op", 3, 2):
            w = ["ABC"[i] + k for i, k in enumerate(ks)]
            yield {**m, "files": [w], "o": {"sn": sn, "fzk100": fzk100}}
    for zo, ao in itertools.product((None, 0, 0.5, -0.75, 10.0, -2), (None, 0, 3.5, -130.0)):
        for ks in words("otr", 3, 2):
            w = ["ABC"[i] + k for i, k in enumerate(ks)]
            yield {**m, "files": [w], "o": {"zo": zo, "ao": ao}}
    for pol in ("0", "1"):
        for g in itertools.product(".lhc", repeat=3):
            for w in (["A", "B"], ["B", "A", "C"]):
                yield {**m, "files": [w], "gates": "".join(g), "o": {"pol": pol}}
    for w in words("PAB", 3):
        yield {**m, "files": [w], "o": {"noangles": True}}
    for r in ("mira", "basta", "bowtie", "mrr", "galileo"):
        for rcf in (0.5, 1.0, 1.25):
            for w in (["A", "B"], ["B", "A", "C"] if r != "bowtie" else ["A", "B", "C"]):
                yield {"radar": r, "files": [w], "o": {"rcf": rcf}}
    for coff, zoff, roff, off in itertools.product((0.0, -140.0), (None, -146.5, 0), (-720.0, -128.0), (None, -720, -736, -104)):
        o = {"coff": coff, "roff": roff, "lo": 64.0}
        if zoff is not None:
            o["Zh_offset"] = zoff
        if off is not None:
            o["range_offset"] = off
        for w in (["A", "B"], ["B", "A", "C"]):
            yield {"radar": "copernicus", "files": [w], "gates": "." * 8, "o": o}
    for lo in (-64.0, -63.0, -1.0, 0.0, 1.0, 86.0):
        for g in ("....", "s.cz", "cc.."):
            for w in (["A", "B"], ["B", "A", "C"], ["A", "B", "C", "D"]):
                yield {"radar": "galileo", "files": [w], "gates": g, "o": {"lo": lo}}
    for snr in (-30, 3, 3.5, 20, 21, 50):
        for w in (["A", "B"], ["B", "A", "C"]):
            yield {"radar": "galileo", "files": [w], "gates": ".s.", "o": {"snr_limit": snr}}
    # clutter is only looked for in the lowest gates
    for j in range(20):
        yield {"radar": "galileo", "files": [["A", "B"]], "gates": "." * j + "c" + "." * (19 - j)}
        yield {"radar": "galileo", "files": [["A", "B"]], "gates": "c" * j + "." + "k" * (19 - j)}
    for el in (90.0, 89.5, 80.0):
        for w in words("AB", 2):
            yield {"radar": "basta", "files": [w], "o": {"el": el}}


def run(ctx) -> None:
    t = ctx.thorough
    ctx.explore("times", run_case, list(cases_times(5 if t else 3)), bound="words of profile times up to length %d" % (5 if t else 3))
    ctx.explore("split", run_case, list(cases_split(4 if t else 3)), bound="two files of up to 2 profiles, three files of up to %d" % (2 if t else 1))
    ctx.explore("pointing", run_case, list(cases_pointing(5 if t else 3)), bound="words of pointing/power kinds up to length %d" % (5 if t else 3))
    ctx.explore("gates", run_case, list(cases_gates(4 if t else 2)), bound="gate kinds, profiles of up to %d gates, pairs of profiles of 2" % (4 if t else 2))
    ctx.explore("options", run_case, list(cases_options()), bound="every listed option combined with short words")
    ctx.assume("a raw SNR is missing only where the reflectivity is missing too; either all or no pointing angles are missing")
    ctx.assume("BOW-TIE files are processed daily files: their profiles are in time order and distinct")
