"""C17: RPG cloud radar (level 1 binary files to a daily netCDF file).

A case lists the files of the folder, each with a word of profile symbols (time letter + kind letters) and header options.
"""

import datetime
import itertools
import math
import os

import numpy as np

from .. import ncio, rpgfile
from ..core import Out, Violation, check, digest

LEVEL = "model_checking"
SITE = {"name": "Bunker", "altitude": 100.0}
DAY = datetime.date(2021, 3, 4)
EPOCH = 86400 * (DAY - datetime.date(2001, 1, 1)).days
TIMES = {"P": -660, "Z": 0, "A": 600, "B": 603, "C": 610, "D": 50400, "E": 86397, "M": 86400, "N": 86400 + 330}
GRIDS = {
    "std": [100.0 + 30.0 * j for j in range(8)],
    "hi": [100.0 + 45.0 * j for j in range(8)],  # reaches higher
    "fine": [100.0 + 20.0 * j for j in range(14)],
    "low": [130.0 + 30.0 * j for j in range(5)],  # starts higher, ends lower
}
CHIRPS = {
    "two": {"RngOffs": [0, 3], "SpecN": [512, 256], "ChirpReps": [100, 200], "SeqIntTime": [0.5, 1.25], "dR": [30.0, 31.0], "MaxVel": [9.5, 6.25]},
    "three": {"RngOffs": [0, 2, 4], "SpecN": [512, 256, 128], "ChirpReps": [10, 20, 30], "SeqIntTime": [0.5, 1.25, 2.0], "dR": [28.0, 29.0, 30.0], "MaxVel": [10.5, 7.25, 4.5]},
    "one": {"RngOffs": [0], "SpecN": [512], "ChirpReps": [64], "SeqIntTime": [2.25], "dR": [30.0], "MaxVel": [5.75]},
}
LDR = {0: {}, 1: {"RefRat": "ldr", "CorrCoeff": "rho_cx", "DiffPh": "phi_cx"}}
LDR[2] = {"RefRat": "zdr", "CorrCoeff": "rho_hv", "DiffPh": "phi_dp", "SLDR": "sldr", "SCorrCoeff": "srho_hv", "KDP": "kdp", "DiffAtt": "differential_attenuation"}
NAMES = {"Ze": "Zh", "MeanVel": "v", "SpecWidth": "width", "Skewn": "skewness", "Kurt": "kurtosis"}
SCALARS = {
    "RR": "rainfall_rate", "RelHum": "relative_humidity", "EnvTemp": "air_temperature", "BaroP": "air_pressure", "WS": "wind_speed", "WD": "wind_direction",
    "DDVolt": "voltage", "DDTb": "brightness_temperature", "LWP": "lwp", "PowIF": "if_power", "Azi": "azimuth_angle", "Status": "status_flag",
    "TransPow": "transmitted_power", "TransT": "transmitter_temperature", "RecT": "receiver_temperature", "PCT": "pc_temperature",
}
UNIT = {"rainfall_rate": 1 / 3.6e6, "lwp": 1e-3, "relative_humidity": 1e-2, "air_pressure": 100.0, "wind_speed": 1 / 3.6}
CHIRP_VARS = {
    "SpecN": "number_of_spectral_samples", "RngOffs": "chirp_start_indices", "ChirpReps": "number_of_averaged_chirps", "SeqIntTime": "integration_time", "dR": "range_resolution",
}
MASKED_BY_WIDTH = ("Zh", "v", "ldr", "width", "sldr")


def f32(x):
    return float(np.float32(x))


def gates(i, kind, n, pol):
    out = []
    for j in range(n):
        if "m" in kind or j % 5 == 3 or (i % 3 == 1 and j == 0):
            out.append(None)
            continue
        g = {
            "Ze": 10 ** ((-30 + 3 * i + 5 * j) / 10), "MeanVel": -2.5 + 0.25 * i + 0.5 * j, "SpecWidth": 0.25 + 0.0625 * i + 0.01 * j,
            "Skewn": 0.5 - 0.125 * j, "Kurt": 3.0 + 0.25 * j,
            "RefRat": -20.0 + j - 0.5 * i, "CorrCoeff": 0.5 + 0.03125 * j, "DiffPh": 0.25 * (j + 1) + 0.0625 * i,
            "SLDR": -25.0 + j, "SCorrCoeff": 0.75 - 0.03125 * j, "KDP": 0.125 + 0.5 * j, "DiffAtt": 0.0625 + 0.25 * j,
        }
        if "w" in kind and j % 2:
            g["SpecWidth"] = 0.004
        if "W" in kind and j % 2:
            g["SpecWidth"] = 0.006
        if "l" in kind:
            g["RefRat"], g["SLDR"] = (-36.0, -41.0) if j % 2 else (-34.0, -39.0)
        if "k" in kind:  # exactly at the limit
            g["RefRat"], g["SLDR"] = -35.0, -40.0
        if "f" in kind:
            for k in ("Ze", "Skewn", "RefRat", "SLDR", "KDP")[j % 2 :: 2]:
                g[k] = -999.0
        if "e" in kind:
            for k in ("Ze", "MeanVel", "CorrCoeff"):
                g[k] = 1e-10
        out.append({k: f32(x) for k, x in g.items()})
    return out


ELE = {"z": 89.95, "y": 90.08, "o": 60.0, "s": 80.0, "h": 89.8}


def profile(sym, i, f):
    k = sym[1:]
    p = {"t": EPOCH + TIMES[sym[0]], "ms": 250 * ("1" in k) + 500 * ("2" in k), "qf": i % 4, "i": i}
    for n, key in enumerate(rpgfile.SCALARS):
        p[key] = f32(10.0 + 1.5 * n + 0.25 * i)
    p["RR"], p["LWP"], p["WS"] = f32(0.5 * i), f32(40.0 * i), f32(7.2 * (i + 1))
    p["EnvTemp"], p["BaroP"] = f32(270.0 + i), f32(1000.0 + i)
    if "a" in k:
        p["EnvTemp"], p["BaroP"], p["RR"] = -999.0, 0.0, 0.0
    p["Elev"] = f32(next((ELE[c] for c in k if c in ELE), f.get("ele", 90.0)))
    p["gates"] = gates(i, k, len(GRIDS[f.get("grid", "std")]), f.get("pol", 1))
    p["f"] = f
    return p


def header(f):
    h = {
        "version": f.get("ver", 3.5), "pol": f.get("pol", 1), "range": GRIDS[f.get("grid", "std")], "chirps": CHIRPS[f.get("ch", "two")], "program": 3 + f.get("prog", 0),
        "model": 1, "customer": "nobody", "freq": 94.0, "sep": 0.5, "dia": 0.25, "gain": 1e5, "hpbw": 0.5, "sampdur": 3.0, "lat": 51.25, "lon": -1.5, "calint": 12, "fft": 2,
        "volt": 1000, "noise": 6.0,
    }
    h.update(f.get("hdr", {}))
    return h


class Refused(Exception):
    pass


CONSTANT = ("customer", "model", "pol", "sep", "dia", "gain", "hpbw", "freq")


def expected(case):
    day = case.get("date", "day") is not None
    used = []
    for n, f in enumerate(case["files"]):
        if f.get("broken") or not f["w"]:
            continue
        profs = case["_profs"][n]
        if day and any(not EPOCH <= p["t"] < EPOCH + 86400 for p in profs):
            continue
        used.append(n)
    rows = [p for n in used for p in case["_profs"][n]]
    if not rows:
        raise Refused
    hs = [header(case["files"][n]) for n in used]
    for key in CONSTANT:
        if len({h[key] for h in hs}) > 1:
            raise Refused
    if not (abs(hs[0]["freq"] - 94) < 0.1 or abs(hs[0]["freq"] - 35) < 0.1):
        raise Refused
    grid = max((h["range"] for h in hs), key=lambda r: r[-1])
    groups = [[p for p in rows if stamp(p) == t] for t in sorted({stamp(p) for p in rows})]
    return used, grid, groups


def stamp(p):
    return p["t"] * 1000 + p["ms"]


def median(x):
    x = sorted(x)
    n = len(x)
    return (x[(n - 1) // 2] + x[n // 2]) / 2


def screen(zen):
    """Rows near the typical angle; None if a row is too close to tell."""
    near = [z for z in zen if -5 < z < 15]
    if not near:
        return []
    m = median(near)
    return [n for n, z in enumerate(zen) if abs(z - m) < 0.1 + 1e-5 * abs(m)]


def nearest(src, x):
    """Admissible source gates for a target gate."""
    if x < src[0] or x > src[-1]:
        return [None]
    d = min(abs(s - x) for s in src)
    return [j for j, s in enumerate(src) if abs(abs(s - x) - d) < 1e-3]


def gate_value(g, key, name):
    if g is None:
        return None
    x = g[key]
    if x == -999 or abs(x) < 1.1e-8:
        return None
    if (name == "ldr" and x <= -35) or (name == "sldr" and x <= -40):
        return None
    if g["SpecWidth"] < 0.005 and name in MASKED_BY_WIDTH:
        return None
    return 10 * math.log10(x) if name == "Zh" else x


def run_rpg(case, tmp):
    from cloudnetpy.exceptions import CloudnetException
    from cloudnetpy.instruments import rpg2nc

    case = dict(case)
    case["_profs"] = []
    d = os.path.join(tmp, "raw")
    os.mkdir(d)
    paths = []
    i = 0
    for n, f in enumerate(case["files"]):
        ps = []
        for s in f["w"]:
            ps.append(profile(s, i, f))
            i += 1
        case["_profs"].append(ps)
        name = f.get("name", f"r{n}.LV1")
        paths.append(os.path.join(d, name))
        if f.get("broken") == "text":
            with open(paths[-1], "w") as fh:
                fh.write("kissa")
        elif f.get("broken") == "empty":
            open(paths[-1], "w").close()
        else:
            rpgfile.write_lv1(paths[-1], header(f), ps, {"header": 60, "code": 6, "none": None}[f.get("broken", "none")])
    for junk in case.get("junk", ()):
        with open(os.path.join(d, junk), "w") as fh:
            fh.write("x")
    before = {x: ncio.filehash(os.path.join(d, x)) for x in os.listdir(d)}
    out = os.path.join(tmp, "out.nc")
    date = {"day": DAY, "str": DAY.isoformat(), None: None}[case.get("date", "day")]
    meta = {**SITE, **case.get("meta", {})}
    try:
        used, grid, groups = expected(case)
        refused = False
    except Refused:
        refused = True
    try:
        uuid, files = rpg2nc(d, out, meta, date=date)
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    check(before == {x: ncio.filehash(os.path.join(d, x)) for x in os.listdir(d)}, "raw files were changed")
    if refused:
        check(err is not None, "files that cannot be combined were accepted")
        if not isinstance(err, (CloudnetException, RuntimeError, ValueError)):
            raise err
        check(not os.path.exists(out), "an output file was left behind")
        return Out(states=[digest("refused")])
    if err is not None and not isinstance(err, CloudnetException):
        raise err
    if all(g[0]["t"] == EPOCH for g in groups):
        return Out(states=[digest("midnight")])  # a lone midnight may belong to either day
    # any row of a repeated time stamp may represent it
    options = list(itertools.product(*groups))
    seen = None
    reason = "no admissible choice of the repeated profiles"
    verdicts = []
    for rows in options:
        zen = [90 - p["Elev"] for p in rows]
        keep = screen(zen)
        verdicts.append(bool(keep))
        if err is not None or not keep:
            continue
        if seen is None:
            seen = ncio.read(out)
        try:
            compare(case, seen, [rows[n] for n in keep], grid, used, meta)
            break
        except Violation as e:
            reason = str(e)
    else:
        if err is not None:
            check(not all(verdicts), lambda: f"valid files refused: {err}")
            check(not os.path.exists(out), "an output file was left behind")
            return Out(states=[digest("no-zenith")])
        raise Violation(reason)
    check([os.path.basename(x) for x in files] == sorted(os.path.basename(paths[n]) for n in used), lambda: f"files used: {files}")
    check(seen["attrs"]["file_uuid"] == str(uuid), "uuid")
    return Out(states=[digest([len(groups), len(keep), [f.get("grid", "") + f.get("ch", "") for f in case["files"]]])], transitions=i)


def compare(case, f, rows, grid, used, meta):
    v = {k: x["data"] for k, x in f["vars"].items()}
    a = f["attrs"]
    day = 0 if case.get("date", "day") else math.floor((rows[0]["t"] - EPOCH) / 86400)
    dd = DAY + datetime.timedelta(days=day)
    check((a["year"], a["month"], a["day"]) == (str(dd.year), f"{dd.month:02d}", f"{dd.day:02d}"), lambda: f"date {a['year'], a['month'], a['day']}")
    check(f["vars"]["time"]["attrs"]["units"] == f"hours since {dd} 00:00:00 +00:00", "time unit")
    hours = [(stamp(p) / 1000 - EPOCH - 86400 * day) / 3600 for p in rows]
    check(ncio.same(v["time"], hours, 2e-7), lambda: f"times {v['time']} expected {hours}")
    check(all(x < y for x, y in zip(v["time"], v["time"][1:])), "time stamps not strictly increasing in the file")
    n = len(rows)
    check(ncio.same(v["range"], grid, 1e-6), lambda: f"range {v['range']}")
    zen = [90 - p["Elev"] for p in rows]
    got = v["zenith_angle"] if isinstance(v["zenith_angle"], list) else [v["zenith_angle"]] * n
    check(all(abs(x - y) < (1e-4 if isinstance(v["zenith_angle"], list) else 0.11) for x, y in zip(got, zen)), lambda: f"zenith angle {v['zenith_angle']} expected {zen}")
    z = median(zen)
    check(ncio.same(v["height"], [SITE["altitude"] + r * math.cos(math.radians(z)) for r in grid], 1e-5), lambda: f"height {v['height']}")
    h0 = header(case["files"][used[0]])
    check(abs(v["radar_frequency"] - h0["freq"]) < 1e-4, "frequency")
    check(abs(v["antenna_gain"] - 10 * math.log10(h0["gain"])) < 1e-4, lambda: f"antenna gain {v['antenna_gain']}")
    for key, name in (("sep", "antenna_separation"), ("dia", "antenna_diameter"), ("hpbw", "half_power_beam_width"), ("model", "model_number"), ("pol", "dual_polarization")):
        check(abs(v[name] - h0[key]) < 1e-6, lambda: f"{name} {v[name]}")
    want_source = "RPG-FMCW-94" if abs(h0["freq"] - 94) < 1 else "RPG-FMCW-35"
    check(want_source in a["source"] and a["cloudnet_file_type"] == "radar" and a["location"] == "Bunker", lambda: f"source {a['source']}")
    pol = h0["pol"]
    names = {**NAMES, **LDR[pol]}
    for k, name in itertools.chain.from_iterable(x.items() for x in LDR.values()):
        if name not in names.values():
            check(name not in v, f"{name} in a file of another polarisation mode")
    for m, p in enumerate(rows):
        src = GRIDS[p["f"].get("grid", "std")]
        h = header(p["f"])
        for key, name in names.items():
            for j, r in enumerate(grid):
                x = v[name][m][j]
                opts = [gate_value(None if k is None else p["gates"][k], key, name) for k in nearest(src, r)]
                check(any(ncio.same(x, w, 3e-6) or (x is not None and w is not None and abs(x - w) < 3e-6) for w in opts), lambda: f"{name} at profile {m} gate {j}: {x} expected {opts}")
        for key, name in SCALARS.items():
            want = p[key] * UNIT.get(name, 1.0)
            if name in ("air_temperature", "air_pressure") and p[key] in (0.0, -999.0):
                want = None
            check(ncio.same(v[name][m], want, 1e-6), lambda: f"{name} at profile {m}: {v[name][m]} expected {want}")
        check(v["quality_flag"][m] == p["qf"], lambda: f"quality flag {v['quality_flag'][m]} expected {p['qf']}")
        c = h["chirps"]
        nc = len(c["RngOffs"])
        starts = [min(range(len(grid)), key=lambda j: abs(grid[j] - src[s])) for s in c["RngOffs"]]
        starts[0] = 0
        for key, name in CHIRP_VARS.items():
            want = starts if key == "RngOffs" else c[key]
            x = v[name][m]
            x = x if isinstance(x, list) else [x]
            check(ncio.same(x[:nc], want, 1e-6) and all(y is None for y in x[nc:]), lambda: f"{name} at profile {m}: {x} expected {want}")
        ny = [c["MaxVel"][max(k for k in range(nc) if starts[k] <= j)] for j in range(len(grid))]
        check(ncio.same(v["nyquist_velocity"][m], ny, 1e-6), lambda: f"nyquist velocity at profile {m}: {v['nyquist_velocity'][m]} expected {ny}")
        for key, name in (("program", "program_number"), ("sampdur", "sample_duration"), ("calint", "calibration_interval")):
            check(abs(v[name][m] - h[key]) < 1e-6, lambda: f"{name} at profile {m}: {v[name][m]}")
        if h["version"] > 2:
            for key, name in (("fft", "FFT_window"), ("volt", "input_voltage_range"), ("noise", "noise_threshold")):
                check(abs(v[name][m] - h[key]) < 1e-6, lambda: f"{name} at profile {m}: {v[name][m]}")
    site(v, rows, meta, n)


def site(v, rows, meta, n):
    hs = [header(p["f"]) for p in rows]
    for key, k in (("latitude", "lat"), ("longitude", "lon")):
        x = [f32(h[k]) for h in hs]
        good = [y for y in x if y != 0]
        got = v[key] if isinstance(v[key], list) else [v[key]]
        if good:
            check(all(min(good) - 1e-4 <= y <= max(good) + 1e-4 for y in got), lambda: f"{key} {v[key]} expected {x}")
        else:
            check(all(abs(y - meta[key]) < 1e-5 for y in got), lambda: f"{key} {v[key]} expected {meta[key]}")
    check(abs((v["altitude"][0] if isinstance(v["altitude"], list) else v["altitude"]) - 100) < 1e-6, "altitude")


# Cases --------------------------------------------------------------------------------


def words(syms, n):
    for k in range(1, n + 1):
        yield from itertools.product(syms, repeat=k)


def one_day(files):
    t = [TIMES[s[0]] for f in files for s in f["w"]]
    return all(0 <= x < 86400 for x in t)


def with_dates(files, **kw):
    yield {"files": files, **kw}
    if one_day(files):
        yield {"files": files, "date": None, **kw}
    else:
        yield {"files": files, "date": "str", **kw}


def cases_words(n):
    """Every word of profiles in one file, and every way to cut it in two."""
    out = []
    for w in words(["A", "Bo", "Cs", "B1", "Zw", "E", "N"], n):
        for cut in range(len(w)):
            files = [{"w": list(w[:cut])}, {"w": list(w[cut:])}] if cut else [{"w": list(w)}]
            out += with_dates(files)
    return out


def cases_kinds():
    kinds = ["", "m", "w", "W", "l", "k", "f", "e", "a", "z", "y", "o", "h", "s", "1", "2", "wl", "fa"]
    out = []
    for pol in (0, 1, 2):
        for ver in (2.0, 3.5, 3.6, 4.0):
            for k1, k2 in itertools.product(kinds, repeat=2):
                if ver != 3.5 and k1 != k2:
                    continue
                out += with_dates([{"w": ["A" + k1, "B" + k2], "pol": pol, "ver": ver}])
    for ks in itertools.product(["", "z", "y", "o", "h", "s"], repeat=4):
        out.append({"files": [{"w": [t + k for t, k in zip("ABCD", ks)]}]})
    return out


def cases_layout(three):
    """Files of different range grids and chirp programs."""
    out = []
    kinds = [{"grid": g, "ch": c} for g in GRIDS for c in CHIRPS]
    ws = (["A", "Bw"], ["C"], ["D", "El"])
    for k in (1, 2) + ((3,) if three else ()):
        for ks in itertools.product(kinds, repeat=k):
            if k == 3 and len({x["ch"] for x in ks}) == 3 and len({x["grid"] for x in ks}) == 3:
                continue
            for pol in (0, 1, 2):
                if k > 1 and pol != 1:
                    continue
                out.append({"files": [{"w": ws[i], **x, "pol": pol} for i, x in enumerate(ks)]})
    for ks in itertools.permutations(kinds[:7], 2):
        # the later data in the earlier file
        out.append({"files": [{"w": ws[1 - i], **x} for i, x in enumerate(ks)]})
    return out


def cases_headers():
    out = []
    alt = [
        {}, {"lat": 0.0, "lon": 0.0}, {"lat": 51.2505, "lon": -1.5005}, {"prog": 1}, {"noise": 3.0, "fft": 0, "volt": 500, "calint": 5, "sampdur": 1.0}, {"freq": 35.0}, {"freq": 10.0},
        {"customer": "somebody"}, {"model": 0}, {"sep": 0.25}, {"dia": 1.5}, {"gain": 2e5}, {"hpbw": 0.25}, {"freq": 94.05},
    ]
    meta = {"latitude": 50.0, "longitude": -2.0}
    for a, b in itertools.product(alt, repeat=2):
        fs = []
        for x, w in ((a, ["A", "B"]), (b, ["C"])):
            x = dict(x)
            f = {"w": w}
            if "prog" in x:
                f["prog"] = x.pop("prog")
            f["hdr"] = x
            fs.append(f)
        out += with_dates(fs, meta=meta)
    broken = [{"broken": "text"}, {"broken": "empty"}, {"broken": "header"}, {"broken": "code"}, {"w": []}, {"w": ["N"]}, {"w": ["A", "N"]}, {"w": ["P", "A"]}, {"pol": 2, "w": ["N"], "grid": "hi"}]
    good = {"w": ["A", "B"]}
    for n in (1, 2, 3):
        for bs in itertools.product([good] + broken, repeat=n):
            fs = []
            for i, b in enumerate(bs):
                f = {"w": ["A"], **b}
                if b is good and i:
                    f["w"] = [["C"], ["D", "E"]][i - 1]
                fs.append(f)
            out.append({"files": fs})
    for names in (["b.LV1", "a.LV1"], ["a.lv1", "b.Lv1"], ["x.LV1.LV1", "x.LV1"]):
        for w1, w2 in ((["A", "B"], ["C"]), (["C", "D"], ["A"]), (["A"], ["A1"])):
            out.append({"files": [{"w": w1, "name": names[0]}, {"w": w2, "name": names[1]}], "junk": ["note.txt", "data.LV0", "LV1.nc"]})
    for w in (["E", "M"], ["Z", "E", "M"], ["M"]):
        if w != ["M"]:
            out.append({"files": [{"w": w}], "date": None})
    # times closer than single precision
    for w in (["E1", "E2"], ["E", "E1", "E2"], ["E2", "E"], ["D", "D1"]):
        out.append({"files": [{"w": w}]})
    return out


def run(ctx):
    thorough = ctx.tier == "thorough"
    ctx.explore("profiles", run_rpg, cases_words(4 if thorough else 3), bound=f"all words of up to {4 if thorough else 3} of 7 profiles, in one file or cut in two, with and without a date")
    ctx.explore("gates", run_rpg, cases_kinds(), bound="pairs of 18 kinds of profiles, 3 polarisation modes, 4 file versions; all 4-profile words of 6 elevations")
    ctx.explore("layouts", run_rpg, cases_layout(thorough), bound=f"all sequences of up to {3 if thorough else 2} files of 4 range grids and 3 chirp programs")
    ctx.explore("files", run_rpg, cases_headers(), bound="pairs of 14 headers; up to 3 files of 10 kinds of broken, empty and misdated files; file names")
    ctx.assume("of profiles with the same time stamp any one may be kept")
    ctx.assume("a value within 1e-8 of zero counts as missing in profiles")
    ctx.assume("nearest gate: either of two equally near")
