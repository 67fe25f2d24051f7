"""C04: disdrometers: every telegram of the day comes out once, at its time, unmixed, in SI
units and on the right size and velocity class."""

from __future__ import annotations

import datetime
import itertools
import os

import numpy as np

from .. import ncio
from ..core import Out, Violation, check, digest

LEVEL = "model_checking"
SITE = {"name": "Kumpula", "latitude": 60.0, "longitude": 25.0, "altitude": 100.0}
DAY = datetime.date(2021, 3, 4)
TIMES = {"P": -600, "A": 0, "B": 36000, "C": 36600, "D": 85800, "N": 86400}
K = 273.15
MMH = 3600000.0

P_BINS = ([10, 5, 5, 5, 5, 2], [0.1, 0.2, 0.4, 0.8, 1.6, 3.2], [0.125, 0.25, 0.5, 1, 2, 3])


def classes(n, spread, start=0.0):
    lo, out = start, []
    for k, s in zip(n, spread):
        for _ in range(k):
            out.append((lo, lo + s))
            lo += s
    return out


P_VEL = classes(P_BINS[0], P_BINS[1])
P_DIA = classes(P_BINS[0], P_BINS[2])
T_VEL = classes([5, 6, 7, 1, 1], [0.2, 0.4, 0.8, 1, 10])
T_DIA = classes([3, 6, 13], [0.125, 0.25, 0.5], 0.125)

SCALARS = [
    "rr", "sr", "wawa", "ww", "z", "vis", "int", "sig", "np", "t", "ih", "v", "st", "err", "ke",
]


def rec(sym, i, seconds=None):
    t = datetime.datetime.combine(DAY, datetime.time()) + datetime.timedelta(
        seconds=TIMES[sym] if seconds is None else seconds
    )
    n = [None] * 32
    vel = [None] * 32
    d, w = (5 * i + 3) % 32, (7 * i + 11) % 32
    n[d] = 1.0 + 0.25 * (i % 8)
    vel[d] = 2.5 + 0.125 * (i % 8)
    spec = {(d, w): 1 + i % 9, ((d + 9) % 32, 31 - w): 2 + i % 9}
    return {
        "t": t, "rr": 1.5 + i, "sr": 0.5 + i, "wawa": 50 + i % 40, "ww": 40 + i % 40, "z": 10.5 + i,
        "vis": 5000 + i, "int": 60, "sig": 20000 + i, "np": 3 + 2 * i, "t": t, "ts": 5 + i,
        "ih": 0.25 + i, "v": 24.0 + 0.1 * i, "st": i % 3, "err": i % 2, "ke": 0.5 * (i + 1),
        "n": n, "vel": vel, "spec": spec, "sn": "451221",
    }


def grid(spec, velocity_major=True, shape=(32, 32)):
    """Counts in telegram order: OTT lists all diameters of a velocity class in turn."""
    a = np.zeros(shape, int)  # diameter, velocity
    for (d, w), c in spec.items():
        a[d, w] = c
    return (a.T if velocity_major else a).ravel().tolist()


# Writers ------------------------------------------------------------------------------


def nums(xs, fmt, missing):
    return [missing if x is None else fmt % x for x in xs]


def field(num, r, dec="."):
    t = r["t"]
    s = {
        1: lambda: "%08.3f" % r["rr"], 2: lambda: "0058.68", 3: lambda: "%02d" % r["wawa"],
        4: lambda: "%02d" % r["ww"], 5: lambda: "   NP", 6: lambda: "   C",
        7: lambda: "%06.3f" % r["z"], 8: lambda: "%05d" % r["vis"], 9: lambda: "%05d" % r["int"],
        10: lambda: "%05d" % r["sig"], 11: lambda: "%05d" % r["np"], 12: lambda: "%03d" % r["ts"],
        13: lambda: r["sn"], 14: lambda: "2.11.6", 15: lambda: "2.11.1", 16: lambda: "%.2f" % r["ih"],
        17: lambda: "%.1f" % r["v"], 18: lambda: "%d" % r["st"], 19: lambda: t.strftime("%Y%m%d%H%M%S"),
        20: lambda: t.strftime("%H:%M:%S"), 21: lambda: t.strftime("%d.%m.%Y"), 22: lambda: "LINDENBERG",
        24: lambda: "0058.68", 25: lambda: "%03d" % r["err"], 34: lambda: "%07.3f" % r["ke"],
        35: lambda: "%07.2f" % r["sr"], None: lambda: "???",
        90: lambda: ";".join(nums(r["n"], "%06.3f", "-9.999")),
        91: lambda: ";".join(nums(r["vel"], "%06.3f", "00.000")),
        93: lambda: ";".join("%03d" % x for x in grid(r["spec"])),
    }[num]()
    return s.replace(".", dec) if dec != "." and num in (1, 2, 7, 16, 17, 34) else s


def spec_text(r, style):
    g = grid(r["spec"])
    if style == "slash":
        return "/".join("%03d" % x for x in g) + "/R"
    if style == "xml":
        if not any(g):
            return "<SPECTRUM>ZERO</SPECTRUM>"
        return "<SPECTRUM>" + ";".join(str(x) if x else "" for x in g) + ";</SPECTRUM>"
    return ";".join("%03d" % x for x in g)


T1 = [19, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 22, 24, 25, 90, 91, 93]
T2 = [19, 1] + [None] * 16 + [90, 91, 93]
T3 = [21, 20, 1, 2, 3, 5, 6, 7, 8, 10, 11, 12, 16, 17, 34, 18, 93]
NAMES = {
    1: "rr", 3: "wawa", 4: "ww", 7: "z", 8: "vis", 9: "int", 10: "sig", 11: "np", 12: "ts", 16: "ih",
    17: "v", 18: "st", 25: "err", 34: "ke", 35: "sr", 90: "n", 91: "vel", 93: "spec",
}


def w_telegram(tel, style="plain", dec=".", tail=""):
    def w(recs):
        out = []
        for r in recs:
            if r == "E":
                out.append("")
            elif r == "X":
                out.append("20210304101010;0000.000;xx")
            else:
                out.append(";".join(spec_text(r, style) if n == 93 else field(n, r, dec) for n in tel) + tail)
        return ("\n".join(out) + "\n").encode("latin1")

    w.keys = [NAMES[n] for n in tel if n in NAMES]
    w.telegram = tel
    w.sn = 13 in tel
    return w


def w_csv(recs):
    head = (
        "Date;Time;Intensity of precipitation (mm/h);Precipitation since start (mm);Radar reflectivity (dBz);"
        "MOR Visibility (m);Signal amplitude of Laserband;Number of detected particles;Temperature in sensor (°C);"
        "Heating current (A);Sensor voltage (V);Kinetic Energy;Snow intensity (mm/h);Weather code SYNOP WaWa;"
        "Weather code METAR/SPECI;Weather code NWS;Optics status;Spectrum"
    )
    out = [head]
    for r in recs:
        if r == "E":
            out.append("")
        elif r == "X":
            out.append("2021/03/04;10:10:10;0.0;;")
        else:
            f = lambda n: field(n, r)  # noqa: B023, E731
            out.append(
                ";".join(
                    [r["t"].strftime("%Y/%m/%d"), f(20), f(1), f(2), f(7), f(8), f(10), f(11), f(12), f(16), f(17),
                     f(34), f(35), f(3), "NP", "C", f(18), spec_text(r, "xml")]
                )
            )
    return ("\n".join(out) + "\n").encode("latin1")


w_csv.keys = ["rr", "z", "vis", "sig", "np", "ts", "ih", "v", "ke", "sr", "wawa", "st", "spec"]


def w_toa5(recs):
    head = [
        "TIMESTAMP", "RECORD", "rainIntensity", "snowIntensity", "accPrec", "weatherCodeWaWa",
        "radarReflectivity", "morVisibility", "kineticEnergy", "signalAmplitude", "sensorTemperature",
        "pbcTemperature", "rightTemperature", "leftTemperature", "heatingCurrent", "sensorVoltage",
        "sensorStatus", "errorCode", "numberParticles",
        *[f"N({i + 1})" for i in range(32)], *[f"V({i + 1})" for i in range(32)],
        *[f"spectrum({i + 1})" for i in range(1024)],
    ]
    q = lambda xs: ",".join(f'"{x}"' for x in xs)  # noqa: E731
    out = [q(["TOA5", "CR1000"]), q(head), q([""] * len(head)), q([""] * len(head))]
    for i, r in enumerate(recs):
        if r == "E":
            out.append("")
            continue
        if r == "X":
            out.append('"2021-03-04 10:10:10",7,0.5,0.5')
            continue
        row = [
            f'"{r["t"]:%Y-%m-%d %H:%M:%S}"', i, r["rr"], r["sr"], 1.5, r["wawa"], r["z"], r["vis"], r["ke"],
            r["sig"], r["ts"], 1, 2, 3, r["ih"], "%.1f" % r["v"], r["st"], r["err"], r["np"],
            *nums(r["n"], "%.3f", "-9.999"), *nums(r["vel"], "%.3f", "0"), *grid(r["spec"]),
        ]
        out.append(",".join(map(str, row)))
    return ("\n".join(out) + "\n").encode()


w_toa5.keys = ["rr", "sr", "wawa", "z", "vis", "ke", "sig", "ts", "ih", "v", "st", "err", "np", "n", "vel", "spec"]


def w_pyatmos(recs):
    head = [
        "datetime_utc", "rain rate [mm/h]", "rain accum [mm]", "Z [dBz]", "MOR visibility [m]",
        "sample interval [s]", "Signal amplitude", "Number of detected particles", "Temperature sensor [°C]",
        "Serial number", "IOP firmware version", "Current heating system [A]",
        "Power supply voltage in the sensor [V]", "Sensor status", "Station name", "Rain amount absolute [mm]",
        "Error code", *[f"N{i:02d}" for i in range(32)], *[f"v{i:02d}" for i in range(32)],
        *[f"M_{i}_{j}" for i in range(32) for j in range(32)],
    ]
    out = [";".join(head)]
    for r in recs:
        if r == "E":
            out.append("")
        elif r == "X":
            out.append("2021-03-04 10:10:10;0.5;1.5")
        else:
            f = lambda n: field(n, r)  # noqa: B023, E731
            out.append(
                ";".join(
                    [f"{r['t']:%Y-%m-%d %H:%M:%S}", f(1), f(2), f(7), f(8), f(9), f(10), f(11), f(12), f(13),
                     f(14), f(16), f(17), f(18), f(22), f(24), f(25), f(90), f(91), f(93)]
                )
                + ";"
            )
    return ("\n".join(out) + "\n").encode()


w_pyatmos.keys = ["rr", "z", "vis", "int", "sig", "np", "ts", "ih", "v", "st", "err", "n", "vel", "spec"]
w_pyatmos.sn = True

FMI_FIELDS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25, 34, 35, 90, 91, 93]


def op4a(r, drop=()):
    out = ["TYP OP4A"]
    for n in FMI_FIELDS:
        if n in drop:
            continue
        out.append(f"{n:02d}:" + ("19990101000000" if n == 19 else field(n, r)) + (";" if n in (90, 91, 93) else ""))
    return out


def w_fmi(recs, drops=None):
    out = []
    for i, r in enumerate(recs):
        if r == "E":
            out.append("")
        elif r == "X":
            out += ["[2021-03-04 10:10:10", "TYP OP4A", "01:0000.xxx", "]"]
        else:
            drop = [] if drops is None else drops[i]
            body = [x.rstrip(";") for x in op4a(r, drop)]
            out += [f"[{r['t']:%Y-%m-%d %H:%M:%S}", *body, "]"]
    return ("\n".join(out) + "\n").encode()


w_fmi.keys = [NAMES[n] for n in FMI_FIELDS if n in NAMES]
w_fmi.sn = True


PARSIVEL = {
    "tel1": w_telegram(T1),
    "tel1;": w_telegram(T1, tail=";"),
    "tel1/": w_telegram(T1, style="slash"),
    "tel2": w_telegram(T2),
    "tel3": w_telegram(T3, style="xml", dec=","),
    "csv": w_csv,
    "toa5": w_toa5,
    "pyatmos": w_pyatmos,
    "fmi": w_fmi,
}


# Expectations -------------------------------------------------------------------------

VARS = {
    "rr": ("rainfall_rate", lambda x: x / MMH), "sr": ("snowfall_rate", lambda x: x / MMH),
    "wawa": ("synop_WaWa", None), "ww": ("synop_WW", None), "z": ("radar_reflectivity", None),
    "vis": ("visibility", None), "int": ("interval", None), "sig": ("sig_laser", None),
    "np": ("n_particles", None), "ts": ("T_sensor", lambda x: x + K), "ih": ("I_heating", None),
    "v": ("V_power_supply", None), "st": ("state_sensor", None), "err": ("error_code", None),
    "ke": ("kinetic_energy", None),
}


def expect_parsivel(sel, keys):
    want = {}
    for k in keys:
        if k in VARS:
            name, fn = VARS[k]
            want[name] = [None if r[k] is None else (fn(r[k]) if fn else r[k]) for r in sel]
        elif k == "n":
            want["number_concentration"] = [
                [None] * 32 if r["n"] is None else [None if x is None else float(round(10**x)) for x in r["n"]]
                for r in sel
            ]
        elif k == "vel":
            want["fall_velocity"] = [[None] * 32 if r["vel"] is None else r["vel"] for r in sel]
        elif k == "spec":
            a = []
            for r in sel:
                if r["spec"] is None:
                    a.append([[None] * 32] * 32)
                    continue
                g = np.zeros((32, 32), int)
                for (d, w), c in r["spec"].items():
                    g[d, w] = c
                a.append(g.tolist())
            want["data_raw"] = a
    return want


def compare(got, want, sel, day, vel, dia, tol=3e-6):
    v = got["vars"]
    want = dict(want)
    base = datetime.datetime.combine(day, datetime.time())
    want["time"] = [(r["t"] - base).total_seconds() / 3600 for r in sel]
    for name, x in want.items():
        check(name in v, lambda: f"{name} is missing")
        y = v[name]["data"]
        check(ncio.same(x, y, tol), lambda: f"{name} is {str(y)[:300]}, should be {str(x)[:300]}")
    check(
        v["time"]["attrs"]["units"] == f"hours since {day.isoformat()} 00:00:00 +00:00",
        lambda: f"time units {v['time']['attrs']['units']}",
    )
    a = got["attrs"]
    check((a["year"], a["month"], a["day"]) == tuple(day.isoformat().split("-")), "date attributes")
    for name, cl, f in (("velocity", vel, 1.0), ("diameter", dia, 1000.0)):
        if cl is None:
            continue
        for key, val in (
            (name, [(x + y) / 2 / f for x, y in cl]),
            (name + "_spread", [(y - x) / f for x, y in cl]),
            (name + "_bnds", [[x / f, y / f] for x, y in cl]),
        ):
            check(ncio.same(val, v[key]["data"], 1e-5), lambda: f"{key} is {v[key]['data']}")
    for k in ("latitude", "longitude", "altitude"):
        x = v[k]["data"]
        check(
            all(ncio.same(SITE[k], y, 1e-6) for y in (x if isinstance(x, list) else [x])),
            lambda: f"{k} is {x}",
        )


def candidates(recs, day, dated):
    """All acceptable outputs: sorted by time, one whole record per time stamp."""
    rows = [r for r in recs if not isinstance(r, str)]
    if dated:
        rows = [r for r in rows if r["t"].date() == day]
    by = {}
    for r in rows:
        by.setdefault(r["t"], []).append(r)
    return [by[t] for t in sorted(by)]


def any_of(groups, fn):
    err = None
    combos = itertools.product(*groups) if len(groups) <= 8 else [tuple(g[0] for g in groups)]
    for c in combos:
        try:
            return fn(list(c))
        except Violation as e:
            err = err or e
    raise err


# Parsivel -----------------------------------------------------------------------------


def run_parsivel(case, tmp) -> Out:
    """case: fmt, files [word...], date True|False|'obj', drops (fmi), opts"""
    from cloudnetpy.exceptions import DisdrometerDataError
    from cloudnetpy.instruments import parsivel2nc

    w = PARSIVEL[case["fmt"]]
    i, recs, paths = 0, [], []
    drops = case.get("drops")
    for k, word in enumerate(case["files"]):
        rows = []
        for s in word:
            rows.append(s if s in "XE" else rec(s, i))
            i += 1
        p = os.path.join(tmp, f"in{k}.txt")
        with open(p, "wb") as f:
            if drops is not None:
                f.write(w(rows, [drops[recs_i] for recs_i in range(len(recs), len(recs) + len(rows))]))
            else:
                f.write(w(rows))
        recs += rows
        paths.append(p)
    keys = list(w.keys)
    if drops is not None:
        inv = {n: NAMES[n] for n in FMI_FIELDS if n in NAMES}
        for r, dr in zip(recs, drops):
            for n in dr:
                if n == 13:
                    r["sn"] = None
                if n in inv:
                    r[inv[n]] = None
        present = [k for k in keys if any(r[k] is not None for r in recs)]
        keys = present
    return finish_parsivel(case, paths, recs, keys, w, tmp, parsivel2nc, DisdrometerDataError)


def finish_parsivel(case, paths, recs, keys, w, tmp, fn, exc):
    dated = case.get("date", True)
    date = {True: DAY.isoformat(), False: None, "obj": DAY}[dated]
    groups = candidates(recs, DAY, dated)
    out = os.path.join(tmp, "out.nc")
    given = paths[0] if len(paths) == 1 and not case.get("aslist") else paths
    hashes = [ncio.filehash(p) for p in paths]
    # a file without a single readable record may be refused as a whole
    dead = False
    pos = 0
    for word in case["files"]:
        part = recs[pos : pos + len(word)]
        pos += len(word)
        dead |= all(isinstance(r, str) for r in part)
    try:
        uuid = fn(given, out, SITE, date=date, telegram=getattr(w, "telegram", None))
    except exc:
        check(len(groups) < 2 or dead, "refused although there are at least two records")
        check(not os.path.exists(out), "left an output file behind after refusing")
        return Out(states=["refused"], transitions=len(recs))
    check(len(groups) >= 2, "accepted fewer than two records")
    got = ncio.read(out)
    first = [r for r in recs if not isinstance(r, str)][0]
    day = DAY if dated else first["t"].date()

    def one(sel):
        want = expect_parsivel(sel, keys)
        compare(got, want, sel, day, P_VEL, P_DIA)
        return digest([want, [str(r["t"]) for r in sel]])

    d = any_of(groups, one)
    check(got["attrs"]["file_uuid"] == str(uuid), "returned UUID is not that of the file")
    has_sn = any(r["sn"] and (not dated or r["t"].date() == DAY) for r in recs if not isinstance(r, str))
    if getattr(w, "sn", False) and has_sn:
        check(got["attrs"].get("serial_number") == "451221", "serial number lost")
    check(hashes == [ncio.filehash(p) for p in paths], "input file was changed")
    return Out(states=[d], transitions=len(recs))


def words(symbols, depth, low=1):
    for n in range(low, depth + 1):
        for w in itertools.product(symbols, repeat=n):
            yield "".join(w)


def cases_parsivel(depth):
    for fmt in PARSIVEL:
        for w in words("PABDNXE", depth):
            if fmt == "fmi" and w[0] == "E":
                continue  # the format is told by the first line
            yield {"fmt": fmt, "files": [w]}
        for a in words("PABX", 2):
            for b in words("ABN", 2):
                yield {"fmt": fmt, "files": [a, b]}
        for w in words("ABD", 3):
            yield {"fmt": fmt, "files": [w], "date": False}
            yield {"fmt": fmt, "files": [w], "date": "obj", "aslist": True}
    for w in words("PAB", 3, 2):
        yield {"fmt": "tel1", "files": [w], "date": False}


DROP = [4, 12, 34, 90, 93]


def cases_fmi_drops(depth):
    few = DROP if depth > 3 else DROP[:4]
    subsets = [list(c) for k in range(len(few) + 1) for c in itertools.combinations(few, k)]
    for ds in itertools.product(subsets, repeat=2):
        yield {"fmt": "fmi", "files": ["AB"], "drops": list(ds)}
        yield {"fmt": "fmi", "files": ["A", "B"], "drops": list(ds)}
    small = [[], [4, 90], [12, 13, 93], DROP]
    for ds in itertools.product(small, repeat=depth):
        w = "BACD"[:depth]
        yield {"fmt": "fmi", "files": [w], "drops": list(ds)}
        yield {"fmt": "fmi", "files": [w[:2], w[2:]], "drops": list(ds)}


# Every cell of the spectrum, every encoding; record counts equal to the class counts ---------


def run_cells(case, tmp) -> Out:
    """case: fmt, velocity class of the particle: 32 records, one per diameter, in a given order"""
    from cloudnetpy.exceptions import DisdrometerDataError
    from cloudnetpy.instruments import parsivel2nc

    w = PARSIVEL[case["fmt"]]
    recs = []
    for i in range(case["n"]):
        r = rec("A", i, seconds=600 * i + 30)
        if "w" in case:
            r["spec"] = {(i % 32, case["w"]): 1 + i % 7}
            if "n" in w.keys:
                r["n"] = [None] * 32
                r["vel"] = [None] * 32
                r["n"][i % 32] = 0.5
                r["vel"][31 - i % 32] = 1.25
        else:
            r["spec"] = {} if i % 2 else r["spec"]
        recs.append(r)
    if case["order"] == "reverse":
        recs.reverse()
    elif case["order"] == "rotate":
        recs = recs[1:] + recs[:1]
    elif case["order"] == "dup":
        recs = recs[:-1] + [recs[0]]
    p = os.path.join(tmp, "in.txt")
    with open(p, "wb") as f:
        f.write(w(recs))
    return finish_parsivel(
        {"files": ["A" * len(recs)], "date": True}, [p], recs, w.keys, w, tmp, parsivel2nc, DisdrometerDataError
    )


def cases_cells():
    for fmt in PARSIVEL:
        for v in range(32):
            yield {"fmt": fmt, "w": v, "n": 32, "order": "sorted"}
        for n in (2, 31, 32, 33):
            for order in ("sorted", "reverse", "rotate", "dup"):
                yield {"fmt": fmt, "n": n, "order": order}


# Values -------------------------------------------------------------------------------


def run_values(case, tmp) -> Out:
    """case: fmt, over {record: {key: value}}"""
    from cloudnetpy.exceptions import DisdrometerDataError
    from cloudnetpy.instruments import parsivel2nc

    w = PARSIVEL[case["fmt"]]
    recs = [rec(s, i) for i, s in enumerate("AB")]
    for i, o in case["over"].items():
        recs[int(i)].update(o)
    p = os.path.join(tmp, "in.txt")
    with open(p, "wb") as f:
        f.write(w(recs))
    return finish_parsivel({"files": ["AB"]}, [p], recs, w.keys, w, tmp, parsivel2nc, DisdrometerDataError)


LIMITS = {
    "rr": [0.0, 0.001, 999.999], "sr": [0.0, 99.99], "wawa": [0, 99], "ww": [0, 99], "z": [-9.999, 0.0, 59.5],
    "vis": [0, 20000], "int": [0, 3600], "sig": [0, 32767], "np": [0, 32767], "ts": [-40, -1, 0, 60],
    "ih": [0.0, 3.0], "v": [0.0, 30.0], "st": [0, 3], "err": [0, 111], "ke": [0.0, 999.999],
}


def cases_values():
    for fmt, w in PARSIVEL.items():
        for k, vals in LIMITS.items():
            if k not in w.keys:
                continue
            for a in [*((x, "same") for x in vals), *itertools.permutations(vals, 2)]:
                over = {str(i): {k: x} for i, x in enumerate(a) if x != "same"}
                yield {"fmt": fmt, "over": over}
        if "n" in w.keys:
            for a in itertools.permutations([None, 0.0, 0.004, 3.0, -1.0, 9.0], 2):
                n = [a[0]] + [None] * 30 + [a[1]]
                yield {"fmt": fmt, "over": {"0": {"n": n}}}
                v = [None if x is None or x <= 0 else x for x in n]
                yield {"fmt": fmt, "over": {"1": {"vel": v}}}


# Single-telegram files with and without the date inside, time stamps given by the caller ------


def run_op4a(case, tmp) -> Out:
    """case: word, mode 'given'|'inside', count of time stamps"""
    from cloudnetpy.exceptions import DisdrometerDataError
    from cloudnetpy.instruments import parsivel2nc

    recs = [rec(s, i) for i, s in enumerate(case["word"])]
    paths = []
    for i, r in enumerate(recs):
        p = os.path.join(tmp, f"{i}.txt")
        drop = (20, 21) if case["mode"] == "given" else ()
        with open(p, "w") as f:
            f.write("\r\n".join(op4a(r, drop)).replace(";\r\n", "\r\n").rstrip(";") + "\r\n\x03\r\n\x00")
        paths.append(p)
    stamps = None
    if case["mode"] == "given":
        stamps = ([r["t"] for r in recs] + [recs[0]["t"]])[: len(recs) + case["extra"]]
    out = os.path.join(tmp, "out.nc")
    dated = case["date"]
    groups = candidates(recs, DAY, dated)
    try:
        parsivel2nc(paths, out, SITE, date=DAY if dated else None, timestamps=stamps)
    except Exception as e:
        ok = isinstance(e, DisdrometerDataError)
        check(case.get("extra", 0) != 0 or (ok and len(groups) < 2), lambda: f"refused: {e!r}")
        check(not os.path.exists(out), "left an output file behind after refusing")
        return Out(states=["refused"], transitions=len(recs))
    check(case.get("extra", 0) == 0, "accepted another number of time stamps than records")
    check(len(groups) >= 2, "accepted fewer than two records")
    got = ncio.read(out)
    keys = [NAMES[n] for n in FMI_FIELDS if n in NAMES]
    day = DAY if dated else recs[0]["t"].date()

    def one(sel):
        compare(got, expect_parsivel(sel, keys), sel, day, P_VEL, P_DIA)
        return digest([str(r["t"]) for r in sel])

    return Out(states=[any_of(groups, one)], transitions=len(recs))


def cases_op4a():
    for w in words("PABN", 3):
        for dated in (True, False):
            yield {"word": w, "mode": "inside", "date": dated}
            for extra in (0, -1, 1):
                yield {"word": w, "mode": "given", "date": dated, "extra": extra}


# Thies --------------------------------------------------------------------------------

THIES = [  # index, name, formatter of record number, expected value
    (9, "synop_WW", lambda i: "%02d" % (40 + i), lambda i: 40 + i),
    (10, "synop_WaWa", lambda i: "%02d" % (50 + i), lambda i: 50 + i),
    (12, "rainfall_rate_1min_total", lambda i: "%07.3f" % (3.5 + i), lambda i: (3.5 + i) / MMH),
    (13, "rainfall_rate", lambda i: "%07.3f" % (2.25 + i), lambda i: (2.25 + i) / MMH),
    (14, "rainfall_rate_1min_solid", lambda i: "%07.3f" % (1.25 + i), lambda i: (1.25 + i) / MMH),
    (16, "visibility", lambda i: "%05d" % (9000 + i), lambda i: 9000 + i),
    (17, "radar_reflectivity", lambda i: "%04.1f" % (10.5 + i), lambda i: 10.5 + i),
    (18, "measurement_quality", lambda i: "%03d" % (100 - i), lambda i: 100 - i),
    (19, "maximum_hail_diameter", lambda i: "%.1f" % (0.5 * i), lambda i: 0.5 * i),
    *[
        (20 + k, name, lambda i, k=k: str((i + k) % 2), lambda i, k=k: (i + k) % 2)
        for k, name in enumerate(
            [
                "status_laser", "static_signal", "status_T_laser_analogue", "status_T_laser_digital",
                "status_I_laser_analogue", "status_I_laser_digital", "status_sensor_supply",
                "status_laser_heating", "status_receiver_heating", "status_temperature_sensor",
                "status_heating_supply", "status_heating_housing", "status_heating_heads",
                "status_heating_carriers", "status_laser_power",
            ]
        )
    ],
    (36, "T_interior", lambda i: "%+d" % (16 + i), lambda i: 16 + i + K),
    (37, "T_laser_driver", lambda i: "%d" % (21 + i), lambda i: 21 + i + K),
    (38, "I_mean_laser", lambda i: "%04d" % (866 + i), lambda i: (866 + i) / 100),
    (39, "V_control", lambda i: "%d" % (4010 + i), lambda i: 4010 + i),
    (40, "V_optical_output", lambda i: "%d" % (1740 + i), lambda i: 1740 + i),
    (41, "V_sensor_supply", lambda i: "%d" % (282 + i), lambda i: (282 + i) / 10),
    (42, "I_heating_laser_head", lambda i: "%03d" % i, lambda i: i),
    (43, "I_heating_receiver_head", lambda i: "%03d" % (2 * i), lambda i: 2 * i),
    (44, "T_ambient", lambda i: "%d" % (-4 + i), lambda i: -4 + i + K),
    (49, "n_particles", lambda i: "%05d" % (3 * i), lambda i: 3 * i),
]
TEXT = {0: "00", 1: "1025", 2: "2.52", 7: "NP   ", 11: "NP   "}


def thies_row(r, fmt):
    i, t = r["i"], r["t"]
    v = ["00000"] * 520
    for k, x in TEXT.items():
        v[k] = x
    clock = t if fmt in ("plain", "tel5", "lim") else t - datetime.timedelta(days=400)
    v[3] = clock.strftime("%d.%m.%Y" if fmt == "lim" else "%d.%m.%y")
    v[4] = clock.strftime("%H:%M:%S")
    for idx, _, w, _ in THIES:
        v[idx] = w(i)
    if "rr" in r:
        v[13] = "%07.3f" % r["rr"]
    v[79:519] = ["%03d" % x for x in grid(r["spec"], False, (22, 20))]
    v = v[:519] + ["9A"]
    if fmt == "lim":
        v = v[:22]
    if fmt == "tel5":
        v = v[:519] + ["1", "2", "3", "4", "9A"]
    return ";".join(v) + ";"


def write_thies(path, recs, fmt):
    out = []
    if fmt == "toa5":
        out = ['"TOA5","16165"', '"TIMESTAMP","RECORD","RawString"', '"TS","RN",""', '"","","Smp"']
    if fmt == "logger":
        out = ["Datetime [utc];Device address;Serial number"]
    for k, r in enumerate(recs):
        if r == "X":
            row = "00;1025;2.52;04.03.21;10:10:10;00;00"
            t = datetime.datetime(2021, 3, 4, 10, 10, 10)
        else:
            row, t = thies_row(r, fmt), r["t"]
            if "damage" in r:  # fields lost or added at a position
                pos, n = r["damage"]
                v = row.rstrip(";").split(";")
                v[pos : pos + max(0, -n)] = ["1"] * max(0, n)
                row = ";".join(v) + ";"
        if fmt == "toa5":
            out.append(f'"{t:%Y-%m-%d %H:%M:%S}",{k},"{row}"')
        elif fmt == "logger":
            out.append(f"{t:%Y-%m-%d %H:%M:%S};{row}")
        else:
            out.append(row)
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


def thies_rec(sym, i, seconds=None):
    r = rec(sym, i, seconds)
    return {"t": r["t"], "i": i, "spec": {((5 * i + 3) % 22, (7 * i + 11) % 20): 1 + i % 9}}


def run_thies(case, tmp) -> Out:
    """case: fmt, word | n+order+w, date, rr"""
    from cloudnetpy.exceptions import DisdrometerDataError, ValidTimeStampError
    from cloudnetpy.instruments import thies2nc

    fmt = case["fmt"]
    if "word" in case:
        recs = ["X" if s == "X" else thies_rec(s, i) for i, s in enumerate(case["word"])]
    else:
        recs = [thies_rec("A", i, 600 * i + 30) for i in range(case["n"])]
        if "w" in case:
            for i, r in enumerate(recs):
                r["spec"] = {(i % 22, case["w"]): 1 + i % 5}
        if case["order"] == "reverse":
            recs.reverse()
        elif case["order"] == "rotate":
            recs = recs[1:] + recs[:1]
        elif case["order"] == "dup":
            recs = recs[:-1] + [recs[0]]
    for i, x in enumerate(case.get("rr", [])):
        recs[i]["rr"] = x
    p, out = os.path.join(tmp, "in.txt"), os.path.join(tmp, "out.nc")
    for i, d in case.get("damage", {}).items():
        recs[int(i)]["damage"] = d
    write_thies(p, recs, fmt)
    recs = ["X" if r != "X" and "damage" in r else r for r in recs]
    dated = case.get("date", True)
    groups = candidates(recs, DAY, dated)
    site = {**SITE, "truncate_columns": 23} if fmt == "lim" else SITE
    date = {True: DAY.isoformat(), False: None, "obj": DAY}[dated]
    try:
        uuid = thies2nc(p, out, site, date=date)
    except (DisdrometerDataError, ValidTimeStampError):
        check(not groups, "refused although the day has records")
        check(not os.path.exists(out), "left an output file behind after refusing")
        return Out(states=["refused"], transitions=len(recs))
    check(groups, "accepted a file without any record of the day")
    got = ncio.read(out)
    rows = [r for r in recs if r != "X"]
    day = DAY if dated else rows[0]["t"].date()

    def one(sel):
        want = {}
        for idx, name, _, f in THIES:
            if fmt == "lim" and idx >= 21:
                check(name not in got["vars"], lambda: f"{name} is not in the truncated telegram")
                continue
            want[name] = [f(r["i"]) for r in sel]
        if "rr" in case:
            want["rainfall_rate"] = [None if r["rr"] > 999 else r["rr"] / MMH for r in sel]
        if fmt != "lim":
            a = []
            for r in sel:
                g = np.zeros((22, 20), int)
                for (d, w), c in r["spec"].items():
                    g[d, w] = c
                a.append(g.tolist())
            want["data_raw"] = a
        compare(got, want, sel, day, T_VEL, T_DIA)
        return digest([fmt, want, [str(r["t"]) for r in sel]])

    d = any_of(groups, one)
    check(got["attrs"]["file_uuid"] == str(uuid), "returned UUID is not that of the file")
    check(got["attrs"].get("serial_number") == "1025", "serial number lost")
    return Out(states=[d], transitions=len(recs))


TF = ["plain", "tel5", "lim", "toa5", "logger"]


def cases_thies(depth):
    for fmt in TF:
        for w in words("PABDNX", depth):
            yield {"fmt": fmt, "word": w}
        for w in words("ABD", 3):
            yield {"fmt": fmt, "word": w, "date": False}
            yield {"fmt": fmt, "word": w, "date": "obj"}
        for n in (1, 2, 19, 20, 21, 22, 23):
            for order in ("sorted", "reverse", "rotate", "dup"):
                yield {"fmt": fmt, "n": n, "order": order}
        if fmt != "lim":
            for w in range(20):
                yield {"fmt": fmt, "n": 22, "order": "sorted", "w": w}
        for pos, n in itertools.product((0, 2, 6, 15, 20), (-5, -3, -2, -1, 1, 2, 3, 5, 6)):
            if pos < 15 or n > 0:
                yield {"fmt": fmt, "word": "ABD", "damage": {"1": [pos, n]}}
                yield {"fmt": fmt, "word": "ABD", "damage": {"0": [pos, n], "2": [20, 1 if n != 1 else 2]}}
        for rr in itertools.product([0.0, 0.005, 998.5, 999.0, 999.999], repeat=2):
            yield {"fmt": fmt, "word": "BA", "rr": list(rr)}


# RD-80 --------------------------------------------------------------------------------

RD_D = [0.359, 0.455, 0.551, 0.656, 0.771, 0.913, 1.116, 1.331, 1.506, 1.665, 1.912, 2.259, 2.584, 2.869, 3.198,
        3.544, 3.916, 4.350, 4.859, 5.373]
RD_S = [0.092, 0.100, 0.091, 0.119, 0.112, 0.172, 0.233, 0.197, 0.153, 0.166, 0.329, 0.364, 0.286, 0.284, 0.374,
        0.319, 0.423, 0.446, 0.572, 0.455]
RD_L = [0.313, 0.405, 0.505, 0.596, 0.715, 0.827, 0.999, 1.232, 1.429, 1.582, 1.748, 2.077, 2.441, 2.727, 3.011,
        3.385, 3.704, 4.127, 4.573, 5.145]
RD_V = [1.435, 1.862, 2.267, 2.692, 3.154, 3.717, 4.382, 4.986, 5.423, 5.793, 6.315, 7.009, 7.546, 7.903, 8.258,
        8.556, 8.784, 8.965, 9.076, 9.137]


def run_rd80(case, tmp) -> Out:
    """case: files [word], date, counts (class -> n) per record, interval"""
    from cloudnetpy.exceptions import CloudnetException
    from cloudnetpy.instruments import rd802nc

    import math

    i, recs, paths = 0, [], []
    head = ["YYYY-MM-DD", "hh:mm:ss", "Status", "Interval [s]", *[f"n{k + 1}" for k in range(20)],
            "RI [mm/h]", "RA [mm]", "RAT [mm]"]
    for k, word in enumerate(case["files"]):
        lines = ["\t".join(head)]
        for s in word:
            if s == "X":
                lines.append("2021-03-04\t10:10:10\t-\t60")
                continue
            t = datetime.datetime.combine(DAY, datetime.time()) + datetime.timedelta(seconds=TIMES[s])
            n = [0] * 20
            for c, x in case.get("n", [{(3 * i) % 20: 2 + i, 19: i % 2}] * (i + 1))[i].items():
                n[int(c)] = x
            dt = case.get("dt", [60] * 9)[i]
            r = {"t": t, "n": n, "dt": dt, "rr": 0.125 * (i + 1)}
            recs.append(r)
            lines.append(
                "\t".join([f"{t:%Y-%m-%d}", f"{t:%H:%M:%S}", "-", str(dt), *map(str, n),
                           f"{r['rr']:.3f}".replace(".", ","), "0,1", "1,5"])
            )
            i += 1
        p = os.path.join(tmp, f"{k}.txt")
        with open(p, "w", newline="") as f:
            f.write("\r\n".join(lines) + "\r\n")
        paths.append(p)
    out = os.path.join(tmp, "out.nc")
    dated = case.get("date", True)
    date = {True: DAY.isoformat(), False: None, "obj": DAY}[dated]
    groups = candidates(recs, DAY, dated)
    try:
        uuid = rd802nc(paths if len(paths) > 1 else paths[0], out, SITE, date=date)
    except CloudnetException:
        check(not groups, "refused although the day has records")
        check(not os.path.exists(out), "left an output file behind after refusing")
        return Out(states=["refused"], transitions=len(recs))
    check(groups, "accepted files without any record of the day")
    got = ncio.read(out)
    day = DAY if dated else min(r["t"] for r in recs).date()
    if not dated:  # the first record of the first file or the earliest one
        got_day = "-".join(got["attrs"][k] for k in ("year", "month", "day"))
        check(got_day in {r["t"].date().isoformat() for r in recs}, lambda: f"date {got_day}")
        day = datetime.date.fromisoformat(got_day)

    def one(sel):
        want = {
            "rainfall_rate": [r["rr"] / MMH for r in sel],
            "interval": [r["dt"] for r in sel],
            "n_particles": [sum(r["n"]) for r in sel],
            "number_concentration": [
                [n / (0.005 * r["dt"] * v * s) for n, v, s in zip(r["n"], RD_V, RD_S)] for r in sel
            ],
            "diameter": [x / 1000 for x in RD_D],
            "diameter_spread": [x / 1000 for x in RD_S],
        }
        zs = []
        for r in sel:
            z = sum(n / v * d**6 for n, v, d in zip(r["n"], RD_V, RD_D)) / (0.005 * r["dt"])
            z = None if z == 0 else 10 * math.log10(z)
            zs.append(None if z is None or z < -10 else z)
        want["radar_reflectivity"] = zs
        up = [*RD_L[1:], RD_L[-1] + RD_S[-1]]
        want["diameter_bnds"] = [[x / 1000, y / 1000] for x, y in zip(RD_L, up)]
        compare(got, want, sel, day, None, None, 1e-5)
        return digest([want, [str(r["t"]) for r in sel]])

    d = any_of(groups, one)
    check(got["attrs"]["file_uuid"] == str(uuid), "returned UUID is not that of the file")
    return Out(states=[d], transitions=len(recs))


def cases_rd80(depth):
    for w in words("PABDNX", depth):
        if set(w) != {"X"}:
            yield {"files": [w]}
    for a in words("PABN", 2):
        for b in words("PAB", 2):
            yield {"files": [a, b]}
    for w in words("PABD", 3):
        yield {"files": [w], "date": False}
        yield {"files": [w], "date": "obj"}
    for c in range(20):
        for n in (0, 1, 500):
            yield {"files": ["AB"], "n": [{str(c): n}, {str((c + 7) % 20): 1}]}
    for a in itertools.product((10, 30, 60), repeat=2):
        yield {"files": ["BA"], "dt": list(a)}


def run(ctx) -> None:
    t = ctx.thorough
    ctx.explore(
        "parsivel-time", run_parsivel, list(cases_parsivel(4 if t else 3)),
        bound="9 file formats x all sequences of <= 3 (4) telegrams over previous day / start / middle / end / next "
        "day / malformed / empty line; all two-file splits of <= 2+2; with and without date",
    )
    ctx.explore(
        "parsivel-missing-fields", run_parsivel, list(cases_fmi_drops(4 if t else 3)),
        bound="all pairs of subsets of 4 (5) absent fields, in one and two files; longer sequences over 4 subsets",
    )
    ctx.explore(
        "parsivel-cells", run_cells, list(cases_cells()),
        bound="9 formats x all 32 x 32 cells of the spectrum; 2, 31, 32 and 33 records in 4 orders",
    )
    ctx.explore("parsivel-values", run_values, list(cases_values()),
                bound="9 formats x every scalar at its limits in both records; number concentrations and speeds")
    ctx.explore("parsivel-single", run_op4a, list(cases_op4a()),
                bound="all sequences of <= 3 one-telegram files, own or given time stamps (also one too few or many)")
    ctx.explore(
        "thies", run_thies, list(cases_thies(4 if t else 3)),
        bound="5 file formats x all sequences of <= 3 (4) telegrams; fields lost or added; all 22 x 20 cells; 1 ... 23 records in 4 orders",
    )
    ctx.explore("rd80", run_rd80, list(cases_rd80(5 if t else 4)),
                bound="all sequences of <= 4 (5) records, two-file splits, every size class, intervals")
    ctx.assume("telegram fields follow the manufacturer's layout; time stamps have whole seconds")
