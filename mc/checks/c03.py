"""C03: surface stations and gauges: every measurement of the day comes out once, at its
time, in SI units, and nothing else does."""

from __future__ import annotations

import datetime
import itertools
import os

from .. import ncio
from ..core import Out, Violation, check, digest

LEVEL = "model_checking"
SITE = {"latitude": 60.0, "longitude": 25.0, "altitude": 100.0}
C2K = 273.15

# Records -------------------------------------------------------------------------------
# Time symbols, in seconds from midnight of the day.
TIMES = {"P": -600, "A": 0, "B": 36000, "C": 36600, "E": 37200, "F": 37860, "D": 85800, "N": 86400}


def record(sym: str, i: int, day: datetime.date, **over) -> dict:
    t = datetime.datetime.combine(day, datetime.time()) + datetime.timedelta(seconds=TIMES[sym])
    r = {
        "t": t,
        "ta": 10.5 + i,
        "rh": 50.0 + i,
        "p": 1000.25 + i,
        "ws": 3.5 + i,
        "wd": 90.5 + i,
        "rr": 0.25 * (i + 1),
        "ra": 5.5,
        "vis": 5000 + i,
    }
    r.update(over)
    return r


def num(x, fmt="%.6f", missing="NaN"):
    return missing if x is None else fmt % x


# Writers: records -> text of one file ----------------------------------------------------

SIRTA_HEAD = {
    "Palaiseau": [
        "Date Time (yyyy-mm-ddThh:mm:ssZ)",
        "Wind speed (m/s)",
        "Wind direction (degres)",
        "Air temperature (°C)",
        "Relative humidity (%)",
        "Pressure (hPa)",
        "Precipitation rate (mm/min)",
        "24-hr cumulated precipitation since 00UT (mm)",
    ],
    "Maïdo Observatory": [
        "Date Time yyyy-mm-ddThh:mm:ssZ",
        "Wind direction - average (°)",
        "Wind speed - maximum value (m/s)",
        "Wind speed - average (m/s)",
        "Pressure - average (hPa)",
        "Relative humidity - maximum value (%)",
        "Relative humidity - average (%)",
        "Air temperature - minimum value (°C)",
        "Air temperature - average (°C)",
    ],
    "Potenza": [
        "Date Time (yyyy-mm-ddThh:mm:ssZ)",
        "Wind speed Maximum value (m/s)",
        "Wind speed Average value (m/s)",
        "Wind direction (degres)",
        "Air temperature (°C)",
        "Relative humidity (%)",
        "Pressure (hPa)",
        "Precipitation rate (mm/min)",
        "24-hr cumulated precipitation (mm)",
    ],
}
SIRTA_HEAD["Bucharest"] = SIRTA_HEAD["Palaiseau"]
SIRTA_COLS = {
    "Palaiseau": ["ws", "wd", "ta", "rh", "p", "rr", "ra"],
    "Bucharest": ["ws", "wd", "ta", "rh", "p", "rr", "ra"],
    "Maïdo Observatory": ["wd", None, "ws", "p", None, "rh", None, "ta"],
    "Potenza": [None, "ws", "wd", "ta", "rh", "p", None, None],
}


def w_sirta(site, recs):
    out = ["# Version : 01", "#"]
    out += [f"# Col. {i + 1} : {h}" for i, h in enumerate(SIRTA_HEAD[site])]
    out += ["# 01 02 03", ""]
    for r in recs:
        if r == "X":
            out.append("2021-03-04T10:00:00Z 1.0 2.0")
            continue
        vals = ["77.5" if c is None else num(r[c]) for c in SIRTA_COLS[site]]
        out.append(r["t"].strftime("%Y-%m-%dT%H:%M:%SZ ") + "  ".join(vals))
    return ("\n".join(out) + "\n").encode("latin-1")


def w_toa5(head, units, cols, recs, missing='"NAN"'):
    q = lambda xs: ",".join(f'"{x}"' for x in xs)  # noqa: E731
    out = [
        q(["TOA5", "X", "CR1000X"]),
        q(["TIMESTAMP", "RECORD", *head]),
        q(["TS", "RN", *units]),
        q([""] * (len(head) + 2)),
    ]
    for i, r in enumerate(recs):
        vals = ["1.5" if c is None else num(r[c], missing=missing) for c in cols]
        out.append(",".join([f'"{r["t"]:%Y-%m-%d %H:%M:%S}"', str(i), *vals]))
    return ("\n".join(out) + "\n").encode()


def w_granada(site, recs):
    return w_toa5(
        ["air_t_Avg", "rh_Avg", "pressure_Avg", "wind_speed_avg", "wind_dir_avg", "wind_dir_std", "rain_Tot"],
        ["degC", "%", "hPa", "m/s", "Deg", "Deg", "mm"],
        ["ta", "rh", "p", "ws", "wd", None, "rr"],
        recs,
    )


def w_juelich(site, recs):
    return w_toa5(
        ["AirTC_Avg", "RH", "WS_ms_S_WVT", "WindDir_D1_WVT", "WS_ms_Max", "BV_BP_Avg"],
        ["Deg C", "%", "meters/Second", "Deg", "meters/Second", "hPa"],
        ["ta", "rh", "ws", "wd", None, "p"],
        recs,
    )


def w_falkenberg(site, recs):
    return w_toa5(
        [
            "WS500_relative_humidity",
            "WS500_relative_air_pressure",
            "WS500_absolute_air_pressure",
            "WS500_air_temperature",
            "WS500_wind_speed_max",
            "WS500_wind_speed_avg",
            "WS500_wind_direction_avg",
        ],
        ["%", "hPa", "hPa", "degC", "m s-1", "m s-1", "deg"],
        ["rh", None, "p", "ta", None, "ws", "wd"],
        recs,
    )


def w_kenttarova(site, recs):
    head = ["Read time (UTC+2)", "Temp 2m (C)", "Humidity 2m (%)", "Temp 10m (C)", "Wind speed (m/s)",
            "Wind dir (deg)", "Pressure (hPa)", "Precipitation (?)"]
    out = ",".join(f'"{h}"' for h in head) + "\n"
    for r in recs:
        if r == "X":
            out += "not a time,1,2,3,4,5,6,7\n"
            continue
        t = r["t"] + datetime.timedelta(hours=2)
        vals = [num(r["ta"], missing=""), num(r["rh"], missing=""), "3.3", num(r["ws"], missing=""),
                num(r["wd"], missing=""), num(None if r["p"] is None else r["p"] * 10, missing=""),
                num(None if r["rr"] is None else r["rr"] * 10 * 60, missing="")]
        out += f"{t:%Y-%m-%d %H:%M:%S}," + ",".join(vals) + "\n"
    return out.encode()


def w_hyytiala(site, recs):
    out = "# SMEAR-II\n# Precipitation\n"
    out += "# y m d  minute AaRNRT/mm AaNRT/mm Pa/kPa Ta/dsC RH/pcnt WD/ds WS/(m/s) \n"
    for r in recs:
        t = r["t"]
        m = lambda x, alt="-99.99": num(x, missing=alt)  # noqa: E731
        p = None if r["p"] is None else r["p"] / 10
        out += (
            f"{t.year} {t.month:2d} {t.day:2d} {t.hour * 60 + t.minute:4d}  9.000  {m(r['rr'])}  "
            f"{m(p)} {m(r['ta'])} {m(r['rh'], '-99.9')} {m(r['wd'])}   {m(r['ws'])}\n"
        )
    return out.encode()


GALATI_NAMES = [
    ["Temperatura", "Umiditate_relativa", "Presiune_atmosferica", "Vizibilitate", "Precipitatii", "Viteza_vant", "Directie_vant"],
    ["Temperature", "RH", "Atmospheric_pressure", "Visibility", "Precipitations", "Wind_speed", "Wind_direction"],
]


def w_galati(site, recs, names=0):
    out = ",".join(["TimeStamp", "Record", *GALATI_NAMES[names], "BattV"]) + "\n"
    for i, r in enumerate(recs):
        p = None if r["p"] is None else r["p"] * 100 / 133.322
        vals = [num(r["ta"], missing="NAN"), num(r["rh"], missing="NAN"), num(p, missing="NAN"),
                num(r["vis"], "%d", "NAN"), num(r["rr"], missing="NAN"), num(r["ws"], missing=""),
                num(r["wd"], missing="NAN")]
        out += f"{r['t']:%Y-%m-%d %H:%M:%S}.000,{i}," + ",".join(vals) + ",13.5\n"
    return out.encode()


def w_lampedusa(site, recs):
    out = ""
    for r in recs:
        m = lambda x: num(x, missing="  /// ")  # noqa: E731
        out += (
            f"{r['t']:%y%m%d %H%M%S},VALID,ICOS, {m(r['ta'])}, {m(r['rh'])}, 6.72, {m(r['p'])}, "
            f"{m(r['ws'])}, {m(r['wd'])}, 9.5, 193, {m(r['rr'])}, 0.0, \n"
        )
    return out.encode()


def w_limassol(site, recs, version=1):
    cols = ["Date Time (yyyy-mm-ddThh:mm:ss)", "Air temperature (°C)",
            "Wind speed at 2m (m/s)" if version else "Wind speed (m/s)", "Relative humidity (%)",
            "Total precipitation (mm)"]
    if version:
        cols += ["Wind speed at 10m (m/s)", "Wind direction at 10m (degrees)"]
    out = "# Weather data\n" + "".join(f"# Col. {i + 1} : {c}\n" for i, c in enumerate(cols))
    out += "# 01 02 03\n\n"
    for r in recs:
        if r == "X":
            out += "2021-03-04T10:00:00\t1.0\n"
            continue
        m = lambda x: num(x, missing="NaN")  # noqa: E731
        rain = None if r["rr"] is None else r["rr"] * 10
        vals = [m(r["ta"]), "1.25" if version else m(r["ws"]), m(r["rh"]), m(rain)]
        if version:
            vals += [m(r["ws"]), m(r["wd"])]
        out += f"{r['t']:%Y-%m-%dT%H:%M:%S}\t" + "\t".join(vals) + "\n"
    return out.encode("utf-8" if version else "latin-1")


def w_laquila(site, recs):
    out = "# Location: L_Aquila\n# DateTime,AirTemperature\n"
    for r in recs:
        if r == "X":
            out += "2021-03-04T10:00:00Z,1.0\n"
            continue
        vals = [num(r[k], missing="") for k in ("ta", "p", "rh", "rr", "ws", "wd")]
        out += f"{r['t']:%Y-%m-%dT%H:%M:%SZ}," + ",".join(vals) + "\n"
    return out.encode()


def w_cluj(site, recs):
    head = ["DateTime", "Precipitation_mm", "WS_azimuth_ms", "WD_azimuth_deg", "WS_Elevation_ms",
            "Air_temperature_C", "rel_humidity_pct", "air_pressure_hPA"]
    out = "\t".join(head) + "\r\n"
    for r in recs:
        rain = None if r["rr"] is None else r["rr"] * 10
        m = lambda x: num(x, missing="")  # noqa: E731
        vals = [m(rain), m(r["ws"]), m(r["wd"]), "0.1", m(r["ta"]), m(r["rh"]), m(r["p"])]
        out += f"{r['t']:%d.%m.%y %H:%M:%S}.000\t" + "\t".join(vals) + "\t\r\n"
    return out.encode()


# site: writer, day, has-rain-rate, tolerates bad rows, reads several files, rate unit (m/s per rr)
MM_MIN = 1e-3 / 60
WSITES = {
    "Palaiseau": dict(w=w_sirta, rr=True, ra=True, bad=True, multi=True),
    "Bucharest": dict(w=w_sirta, rr=True, ra=True, bad=True, multi=True, rate=1e-3 / 3600),
    "Maïdo Observatory": dict(w=w_sirta, bad=True, multi=True),
    "Potenza": dict(w=w_sirta, bad=True, multi=True),
    "Granada": dict(w=w_granada, rr=True),
    "Kenttärova": dict(w=w_kenttarova, rr=True, bad=True, multi=True),
    "Hyytiälä": dict(w=w_hyytiala, rr=True),
    "Galați": dict(w=w_galati, rr=True, vis=True),
    "Jülich": dict(w=w_juelich),
    "Lampedusa": dict(w=w_lampedusa, rr=True),
    "Limassol": dict(w=w_limassol, rr=True, nop=True, bad=True, multi=True),
    "L'Aquila": dict(w=w_laquila, rr=True, bad=True, multi=True),
    "Cluj-Napoca": dict(w=w_cluj, rr=True),
    "Falkenberg": dict(w=w_falkenberg),
}


# Reference -------------------------------------------------------------------------------


def select(recs, day, dated=True):
    """Records of the day in time order; of records that share a time stamp, any one:
    returns every admissible choice."""
    seen: dict = {}
    for r in recs:
        if r == "X" or (dated and r["t"].date() != day):
            continue
        seen.setdefault(r["t"], []).append(r)
    if not seen:
        return []
    return [list(c) for c in itertools.product(*(seen[t] for t in sorted(seen)))]


def any_of(choices, fn):
    """fn(choice) must pass for at least one admissible choice."""
    first = None
    for c in choices:
        try:
            return fn(c)
        except Violation as e:
            first = first or e
    raise first


def hours(t):
    return t.hour + t.minute / 60 + t.second / 3600


def total(amounts):
    """Accumulated amount from a counter that may be reset; None = missing."""
    out, prev, acc = [], None, 0.0
    for a in amounts:
        if a is None:
            out.append(None)
            continue
        if prev is not None:
            acc += a - prev if a >= prev else a
        prev = a
        out.append(acc)
    return out


def wrap(d):
    if d is None:
        return None
    if -2 < d < 0:
        return d + 360
    if 360 <= d < 362:
        return d - 360
    return d


def lin(vals, f):
    return [None if v is None else f(v) for v in vals]


def expected_ws(site, recs) -> dict:
    s = WSITES[site]
    col = lambda k: [r[k] for r in recs]  # noqa: E731
    out = {
        "time": [hours(r["t"]) for r in recs],
        "air_temperature": lin(col("ta"), lambda v: v + C2K),
        "relative_humidity": lin(col("rh"), lambda v: v / 100),
        "wind_speed": col("ws"),
        "wind_direction": [wrap(v) for v in col("wd")],
    }
    if not s.get("nop"):
        out["air_pressure"] = lin(col("p"), lambda v: v * 100)
    if s.get("rr"):
        rate = s.get("rate", MM_MIN)
        out["rainfall_rate"] = lin(col("rr"), lambda v: v * rate)
        if s.get("ra"):
            out["rainfall_amount"] = lin(total(col("ra")), lambda v: v / 1000)
        elif len(recs) > 1:
            ts = [(r["t"] - recs[0]["t"]).total_seconds() for r in recs]
            steps = sorted(b - a for a, b in zip(ts, ts[1:]))
            n = len(steps)
            res = steps[n // 2] if n % 2 else (steps[n // 2 - 1] + steps[n // 2]) / 2
            acc, amount = 0.0, []
            for v in out["rainfall_rate"]:
                acc += (v or 0.0) * res
                amount.append(None if v is None else acc)
            out["rainfall_amount"] = amount
        else:
            out["rainfall_amount"] = [0.0]
    if s.get("vis"):
        out["visibility"] = col("vis")
    return out


GLOBAL_SKIP = {"latitude", "longitude", "altitude"}


def compare(got, want, day):
    names = set(got["vars"]) - GLOBAL_SKIP
    check(
        names == set(want),
        lambda: f"variables {sorted(names)}, expected {sorted(want)}",
    )
    for k, w in want.items():
        g = got["vars"][k]["data"]
        check(ncio.same(g, w, 2e-6), lambda: f"{k} = {g}, expected {w}")
    for k, v in SITE.items():
        check(got["vars"][k]["data"] == v or ncio.same(got["vars"][k]["data"], [v] * len(want["time"])),
              lambda: f"{k} {got['vars'][k]['data']}")
    a = got["attrs"]
    check((a["year"], a["month"], a["day"]) == (f"{day:%Y}", f"{day:%m}", f"{day:%d}"), lambda: f"date {a}")
    u = got["vars"]["time"]["attrs"]["units"]
    check(u == f"hours since {day:%Y-%m-%d} 00:00:00 +00:00", lambda: f"time units {u}")
    return got


DAY = datetime.date(2021, 3, 4)
GALATI_DAY = datetime.date(2025, 8, 5)


def day_of(site):
    return GALATI_DAY if site == "Galați" else DAY


def run_ws(case, tmp) -> Out:
    """case: site, files: list of words, over: {index: {field: value}}, date: bool"""
    from cloudnetpy.exceptions import ValidTimeStampError
    from cloudnetpy.instruments import ws2nc

    site, day = case["site"], day_of(case["site"])
    recs, paths, n = [], [], 0
    for k, word in enumerate(case["files"]):
        part = []
        for sym in word:
            if sym == "X":
                part.append("X")
            else:
                part.append(record(sym, n, day, **case.get("over", {}).get(str(n), {})))
            n += 1
        recs += part
        path = os.path.join(tmp, f"f{k}.txt")
        text = WSITES[site]["w"](site, part, *case.get("variant", []))
        with open(path, "wb") as f:
            f.write(text)
        paths.append(path)
    dated = case.get("date", True)
    sel = select(recs, day, dated)
    out = os.path.join(tmp, "out.nc")
    given = paths if len(paths) > 1 else paths[0]
    date = {True: day.isoformat(), False: None, "obj": day}[dated]
    try:
        uuid = ws2nc(given, out, {"name": site, **SITE}, date=date)
    except ValidTimeStampError:
        check(not sel, "refused although the day has records")
        check(not os.path.exists(out), "left an output file behind after refusing")
        return Out(states=["refused"], transitions=n)
    check(sel, "accepted files without any record of the day")
    got = ncio.read(out)

    def one(recs_):
        want = expected_ws(site, recs_)
        if site == "Limassol" and case.get("variant") == [0]:
            del want["wind_direction"]
        compare(got, want, day)
        return want

    want = any_of(sel, one)
    check(got["attrs"]["file_uuid"] == str(uuid), "returned UUID is not that of the file")
    return Out(states=[digest(want)], transitions=n)


def words(symbols, depth):
    for n in range(1, depth + 1):
        for w in itertools.product(symbols, repeat=n):
            yield "".join(w)


def cases_ws_time(depth):
    for site, s in WSITES.items():
        syms = "PABDN" + ("X" if s.get("bad") else "")
        for w in words(syms, depth):
            if set(w) == {"X"}:
                continue
            yield {"site": site, "files": [w]}
        if s.get("multi"):
            for a in words("PABN", 2):
                for b in words("PAB", 2):
                    yield {"site": site, "files": [a, b]}
        for k in (4, 5, 6):  # gaps of any length between even records
            for w in itertools.combinations("ABCEFD", k):
                yield {"site": site, "files": ["".join(w)]}
        for w in words("ABD", 3):
            yield {"site": site, "files": [w], "date": False}
            yield {"site": site, "files": [w], "date": "obj"}


FIELDS = ["ta", "rh", "p", "ws", "wd", "rr", "ra", "vis"]
DIRS = [-3.0, -1.5, -0.25, 0.0, 359.75, 360.0, 361.5, 362.5, None]


def cases_ws_values(depth):
    for site in WSITES:
        fields = [f for f in FIELDS]
        # every pattern of missing values over two records
        for mask in itertools.product((0, 1), repeat=len(fields)):
            for other in ((0,) * len(fields), mask):
                over = {
                    "0": {f: None for f, m in zip(fields, mask) if m},
                    "1": {f: None for f, m in zip(fields, other) if m},
                }
                yield {"site": site, "files": ["AB"], "over": over}
        for ds in itertools.product(DIRS, repeat=2):
            yield {"site": site, "files": ["AB"], "over": {str(i): {"wd": d} for i, d in enumerate(ds)}}
        for rs in itertools.product([0.0, 0.5, 1.25, None], repeat=depth):
            w = "ABCD"[:depth]
            yield {"site": site, "files": [w], "over": {str(i): {"rr": d} for i, d in enumerate(rs)}}
        for ts in itertools.product([-40.0, 0.0, 35.5, None], repeat=2):
            yield {"site": site, "files": ["BA"], "over": {str(i): {"ta": d} for i, d in enumerate(ts)}}
    for w in words("PABN", 3):
        yield {"site": "Galați", "files": [w], "variant": [1]}
        yield {"site": "Limassol", "files": [w], "variant": [0]}


# Rain gauge and present weather sensor -----------------------------------------------------


def run_gauge(case, tmp) -> Out:
    """case: fmt 16|22|fd, word, amounts per record, bad, date"""
    from cloudnetpy.exceptions import ValidTimeStampError
    from cloudnetpy.instruments import fd12p2nc, rain_e_h32nc

    fmt, word = case["fmt"], case["word"]
    recs = []
    lines = []
    if fmt == 22:
        lines.append(";".join(["datetime_utc"] + ["h"] * 21))
    for i, sym in enumerate(word):
        if sym == "X":
            recs.append("X")
            lines.append({16: "bad;row", 22: "2021-03-04 10:00:00;", "fd": "04.03.2021 10:00:00 FD"}[fmt])
            continue
        r = record(sym, i, DAY)
        r["ra"] = case["ra"][i] if "ra" in case else 2.0 + 0.5 * i
        r["sa"] = case["sa"][i] if "sa" in case else 3 + i
        r["rr"] = case.get("rr", {}).get(str(i), r["rr"])
        r["vis"] = case.get("vis", {}).get(str(i), r["vis"])
        r["syn"] = case.get("syn", {}).get(str(i), 50 + i)
        recs.append(r)
        t = r["t"]
        if fmt == 16:
            lines.append(
                f"{t:%d.%m.%Y;%H:%M:%S};{r['rr']:.3f};{r['ra']:.3f};0;9.5;11.5;0;0;0;60;2582;rain[e]H3;L;MF;A"
            )
        elif fmt == 22:
            lines.append(
                f"{t:%Y-%m-%d %H:%M:%S};te:{t:%Y.%m.%d};{t:%H:%M:%S};{r['rr']:.3f};{r['ra']:.3f};"
                "0;5.0;5.0;1;0;0;60;16740;rain[e]H3;L;MF;A;;850383.0067;1.20;1.55;-0.50*9A"
            )
        else:
            lines.append(
                f"{t:%d.%m.%Y   %H:%M:%S}   FD   100   {num(r['vis'], '%d', '/////')}   9298   L   "
                f"{num(r['syn'], '%d', '//')}   52   40   {num(r['rr'], '%.3f', '////')}   "
                f"{num(r['ra'], '%.3f', '/////')}   {num(r['sa'], '%d', '///')}   "
            )
    path, out = os.path.join(tmp, "in.txt"), os.path.join(tmp, "out.nc")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    dated = case.get("date", True)
    pool = recs
    if fmt == "fd":  # lines without any measurement are not records
        pool = [
            r for r in recs
            if r == "X" or any(r[k] is not None for k in ("vis", "syn", "rr", "ra", "sa"))
        ]
    sel = select(pool, DAY, dated)
    fn = fd12p2nc if fmt == "fd" else rain_e_h32nc
    date = {True: DAY.isoformat(), False: None, "obj": DAY}[dated]
    try:
        uuid = fn(path, out, {"name": "Lindenberg", **SITE}, date=date)
    except ValidTimeStampError:
        check(not sel, "refused although the day has records")
        check(not os.path.exists(out), "left an output file behind after refusing")
        return Out(states=["refused"], transitions=len(word))
    check(sel, "accepted files without any record of the day")
    got = ncio.read(out)
    want = any_of(sel, lambda s: compare_gauge(fmt, got, s))
    check(got["attrs"]["file_uuid"] == str(uuid), "returned UUID is not that of the file")
    if fmt == 22:
        check(got["attrs"].get("serial_number") == "850383.0067", "serial number lost")
    return Out(states=[digest(want)], transitions=len(word))


def compare_gauge(fmt, got, sel):
    col = lambda k: [r[k] for r in sel]  # noqa: E731
    mm = lambda xs: lin(xs, lambda v: v / 1000)  # noqa: E731
    want = {"time": [hours(r["t"]) for r in sel]}
    if fmt == "fd":
        want |= {
            "visibility": col("vis"),
            "synop_WaWa": col("syn"),
            "precipitation_rate": lin(col("rr"), lambda v: v / 3.6e6),
            "precipitation_amount": mm(total(col("ra"))),
            "snowfall_amount": mm(total(col("sa"))),
        }
    else:
        want |= {
            "rainfall_rate": lin(col("rr"), lambda v: v / 3.6e6),
            "rainfall_amount": mm(total(col("ra"))),
        }
    compare(got, want, DAY)
    return want


def cases_gauge(depth):
    for fmt in (16, 22, "fd"):
        for w in words("PABDNX", depth):
            bad = w.count("X")
            if bad == len(w) or (fmt == 16 and 2 * bad >= len(w)) or (fmt == 22 and 2 * bad > len(w)):
                continue  # the majority of rows tells the talker protocol
            yield {"fmt": fmt, "word": w}
        for w in words("ABD", 3):
            yield {"fmt": fmt, "word": w, "date": False}
            yield {"fmt": fmt, "word": w, "date": "obj"}
    opts = [None, 7]
    for vals in itertools.product(opts, repeat=10):
        c = {"fmt": "fd", "word": "AB", "vis": {}, "syn": {}, "rr": {}, "ra": [], "sa": []}
        for i in (0, 1):
            v, s, r, a, sn = vals[5 * i : 5 * i + 5]
            c["vis"][str(i)], c["syn"][str(i)], c["rr"][str(i)] = v, s, r
            c["ra"].append(a)
            c["sa"].append(sn)
        yield c


def run(ctx) -> None:
    d = 5 if ctx.thorough else 3
    ctx.explore(
        "stations-time",
        run_ws,
        list(cases_ws_time(d)),
        bound=f"14 stations x all sequences of <= {d} rows over previous day / start / middle / end / "
        "next day / malformed row (any order, repeats); two-file splits; with and without date",
    )
    ctx.explore(
        "stations-values",
        run_ws,
        list(cases_ws_values(4 if ctx.thorough else 3)),
        bound="14 stations x every pattern of missing fields, wind directions around the wrap, "
        "rain rate sequences",
    )
    ctx.explore(
        "gauges",
        run_gauge,
        list(cases_gauge(5 if ctx.thorough else 4)),
        bound="3 formats x all sequences of <= 4 (5) rows over 6 kinds of row; all missing patterns of 2 rows",
    )
    ctx.assume("time stamps have whole seconds; station text follows the layout of its site")
