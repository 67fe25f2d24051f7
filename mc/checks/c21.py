"""C21: provenance of every file: who made it, when, from what, for which place and day."""

from __future__ import annotations

import datetime
import importlib
import itertools
import os
import pickle
import re
import shutil
import tempfile
import uuid as uuidlib

import netCDF4
import numpy as np

from mc import ncio
from mc.checks import c19
from mc.core import Out, check, untuple

LEVEL = "model_checking"

SOURCES = ("radar", "lidar", "model", "mwr", "disdrometer")
FILES = {"radar": "radar.nc", "lidar": "lidar.nc", "model": "20200307_ecmwf.nc", "mwr": "mwr.nc", "disdrometer": "dis.nc"}
NAME = {"radar": "METEK MIRA-35", "lidar": "Vaisala CL61d", "model": "ECMWF Integrated Forecast System", "mwr": "RPG HATPRO", "disdrometer": "OTT Parsivel2"}
UU = {k: f"00000000-0000-4000-8000-00000000000{9 - i}" for i, k in enumerate(SOURCES)}
NEW = "5f0c1a3e-7d7e-4b8e-9d34-3c2f1a5b7c9d"
VARS = {
    "radar": ("v", "width", "v_sigma", "ldr", "Z", "radar_frequency", "nyquist_velocity"), "lidar": ("beta", "lidar_wavelength"), "mwr": ("lwp",),
    "model": ("uwind", "vwind", "Tw", "q", "pressure", "temperature"),
}
STAMP = re.compile(r"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [+-]\d\d:\d\d) - (.*)", re.S)

# what a file says of itself; o: own, d: same as the radar, n: nothing, l: several, x: malformed history
KINDS = "odnlxt"


def attributes(kind, letter):
    own = {
        "file_uuid": UU[kind], "source": NAME[kind], "instrument_pid": f"https://pid/{kind}",
        "history": f"2020-03-0{8 if kind != 'lidar' else 7} 01:02:03 +00:00 - {kind} file created",
    }
    if letter == "o":
        return own
    if letter == "d":
        return attributes("radar", "o")
    if letter == "n":
        return {"source": NAME[kind]}
    if letter == "l":
        return own | {"source": f"{NAME[kind]}\nSecond {kind}", "history": own["history"] + f"\n2020-03-09 00:30:00 +03:00 - {kind} harmonized\n2019-01-01 00:00:00 +00:00 - raw {kind}"}
    if letter == "x":
        return own | {"history": f"made by hand\n{own['history']}\n - empty stamp\n2020-03-07 23:30:00 +00:00 - {kind} moved"}
    return own | {"history": f"2020-03-08 23:00:00 -05:00 - late {kind}\n2020-03-09 03:00:00 +00:00 - {kind} before it\nlast line of {kind}", "instrument_pid": ""}


def rewrite(path, atts, also=()):
    with netCDF4.Dataset(path, "a") as nc:
        for k in ("file_uuid", "source", "instrument_pid", "history", *also):
            if k in nc.ncattrs():
                nc.delncattr(k)
        for k, v in atts.items():
            nc.setncattr(k, v)


def when(line):
    m = STAMP.fullmatch(line)
    return datetime.datetime.strptime(m[1], "%Y-%m-%d %H:%M:%S %z") if m else None


def check_history(text, lines, what, span, where):
    first, *rest = text.split("\n")
    m = STAMP.fullmatch(first)
    check(m and m[2] == f"{what} file created", lambda: f"{where}: newest history record is {first!r}")
    check(span[0] - datetime.timedelta(seconds=2) <= when(first) <= span[1] + datetime.timedelta(seconds=2), lambda: f"{where}: {first!r} is not now")
    check(sorted(rest) == sorted(set(lines)), lambda: f"{where}: history {rest} is not of {sorted(set(lines))}")
    times = [when(x) for x in rest]
    dated = [t for t in times if t]
    check(dated == sorted(dated, reverse=True), lambda: f"{where}: history is not newest first: {rest}")
    check(all(t is None for t in times[len(dated) :]), lambda: f"{where}: undated records stand between dated ones: {rest}")


def check_common(g, value, given, where):
    check(g.get("Conventions", "").startswith("CF-1."), lambda: f"{where}: Conventions {g.get('Conventions')}")
    from cloudnetpy import version

    check(g.get("cloudnetpy_version") == version.__version__, lambda: f"{where}: version {g.get('cloudnetpy_version')}")
    u = g.get("file_uuid")
    check(u == str(value), lambda: f"{where}: file_uuid {u}, returned {value}")
    if given is not None:
        check(u == str(given), lambda: f"{where}: file_uuid {u} is not the one given, {given}")
    else:
        check(uuidlib.UUID(u).version == 4 and u not in UU.values(), lambda: f"{where}: file_uuid {u} is not new")
    check("doi.org/10.21105/joss.02123" in g.get("references", ""), lambda: f"{where}: references {g.get('references')}")


def call(name, tmp, change, given=None):
    src, _ = c19.fixture(name)
    d = tempfile.mkdtemp(dir=tmp)
    inp = os.path.join(d, "in")
    shutil.copytree(src, inp)
    with open(src + ".call", "rb") as f:
        place, fname, args, kwargs = pickle.load(f)
    args, kwargs = c19.move(list(args), src, inp), c19.move(kwargs, src, inp)
    change(inp, args)
    args[1] = os.path.join(d, "result.nc")
    if given is not None:
        kwargs = kwargs | {"uuid": given}
    t0 = datetime.datetime.now(datetime.timezone.utc)
    with c19.table(fname, tmp):
        value = getattr(importlib.import_module(place), fname)(*args, **kwargs)
    t1 = datetime.datetime.now(datetime.timezone.utc)
    with netCDF4.Dataset(args[1]) as nc:
        g = {k: nc.getncattr(k) for k in nc.ncattrs()}
        v = {k: {a: x.getncattr(a) for a in x.ncattrs()} for k, x in nc.variables.items()}
        dates = {k: x[:] for k, x in nc.variables.items() if k in ("time", "latitude", "longitude", "altitude", "height")}
    return g, v, dates, (value[0] if isinstance(value, tuple) else value), (t0, t1), args


def run_cat(case, tmp) -> Out:
    states = []
    for word in case["words"]:
        word = dict(zip(SOURCES, word))
        atts = {k: attributes(k, x) for k, x in word.items() if x != "-"}
        name = {(): "cat", ("mwr",): "cat_nomwr", ("disdrometer",): "cat_nodis"}[tuple(k for k in SOURCES if word[k] == "-")]

        def change(inp, args, atts=atts):
            for k, a in atts.items():
                rewrite(os.path.join(inp, FILES[k]), a)

        g, v, _, value, span, _ = call(name, tmp, change)
        where = f"categorize of {word}"
        check_common(g, value, None, where)
        for k, x in {"cloudnet_file_type": "categorize", "year": "2020", "month": "03", "day": "07", "location": "Testville", "title": "Cloud categorization products from Testville"}.items():
            check(g.get(k) == x, lambda: f"{where}: {k} is {g.get(k)!r}, not {x!r}")
        check("doi.org/10.1175/BAMS-88-6-883" in g["references"], lambda: f"{where}: references {g['references']}")
        uuids = sorted({a["file_uuid"] for a in atts.values() if "file_uuid" in a})
        have = [x for x in g.get("source_file_uuids", "").split(", ") if x]
        check(sorted(have) == uuids, lambda: f"{where}: source_file_uuids {have}, not {uuids}")
        src = sorted({y for a in atts.values() for y in a["source"].split("\n")})
        check(sorted(g["source"].split("\n")) == src, lambda: f"{where}: source {g['source']!r}, not {src}")
        pids = sorted({a["instrument_pid"] for a in atts.values() if a.get("instrument_pid")})
        have = g["source_instrument_pids"].split("\n") if "source_instrument_pids" in g else []
        check(sorted(have) == pids, lambda: f"{where}: source_instrument_pids {have}, not {pids}")
        lines = [y for k, a in atts.items() if "history" in a for y in (a["history"].split("\n")[-1:] if k == "model" else a["history"].split("\n"))]
        check_history(g["history"], lines, "categorize", span, where)
        for k, names in VARS.items():
            for n in names:
                if n in v:
                    expect(v[n], atts.get(k), f"{where}: {n}")
        if "rainfall_rate" in v:
            expect(v["rainfall_rate"], atts.get("disdrometer") or atts["radar"], f"{where}: rainfall_rate")
        for n in ("category_bits", "quality_bits", "time", "height", "latitude"):
            check(n not in v or "source_instrument_pid" not in v[n], lambda: f"{where}: {n} claims an instrument")
        states.append(list(word.values()))
    return Out(states=states, transitions=len(states) * len(SOURCES), traces=len(states))


def expect(got, atts, where):
    if atts is None:
        check(not got.get("source"), lambda: f"{where}: source {got.get('source')!r} of an absent instrument")
        return
    check(got.get("source") == atts["source"], lambda: f"{where}: source {got.get('source')!r}, not {atts['source']!r}")
    pid = atts.get("instrument_pid") or None
    check((got.get("source_instrument_pid") or None) == pid, lambda: f"{where}: source_instrument_pid {got.get('source_instrument_pid')!r}, not {pid!r}")


PRODUCTS = {
    "class": ("classification", "Classification", ()),
    "ice": ("iwc", "Ice water content", ("10.1175/JAM2340.1",)),
    "ier": ("ier", "Ice effective radius", ("10.1175/JAM2340.1", "10.1175/JAM2543.1", "10.5194/amt-13-5335-2020")),
    "der": ("der", "Droplet effective radius", ("10.1175/1520-0426(2002)019<0835:TROSCD>2.0.CO;2",)),
    "lwc": ("lwc", "Liquid water content", ("10.1175/BAMS-88-6-883",)),
    "drizzle": ("drizzle", "Drizzle", ("10.1175/JAM-2181.1",)),
}
GLOBAL = {
    "source": ["Radar X\nLidar Y", "Radar X"], "source_instrument_pids": ["https://pid/1\nhttps://pid/2"], "instrument_pid": ["https://pid/3"],
    "voodoonet_version": ["0.1.6"], "file_uuid": [UU["radar"]],
}
DAY = [("2020", "03", "07"), ("1999", "12", "31"), ("2024", "2", "9")]
PLACE = ["Testville", "Ny-Ålesund", "L'Aquila"]


def run_product(case, tmp) -> Out:
    name = case["name"]
    short, title, dois = PRODUCTS[name]
    states = []
    for spec in case["specs"]:
        spec = untuple(spec)
        atts = dict(spec["atts"])
        where = f"{name} of {spec}"

        def change(inp, args, atts=atts, spec=spec):
            y, m, d = DAY[spec["day"]]
            rewrite(os.path.join(inp, "cat.nc"), atts | {"year": y, "month": m, "day": d, "location": PLACE[spec["place"]]}, also=GLOBAL)
            with netCDF4.Dataset(os.path.join(inp, "cat.nc"), "a") as nc:
                nc["time"].units = f"hours since {y}-{int(m):02}-{int(d):02} 00:00:00 +00:00"

        given = {"": None, "s": NEW, "u": uuidlib.UUID(NEW)}[spec["uuid"]]
        before = {}
        copied = set()

        def keep(inp, args, change=change, before=before, copied=copied):
            change(inp, args)
            with netCDF4.Dataset(os.path.join(inp, "cat.nc")) as nc:
                for k in ("time", "latitude", "longitude", "altitude", "height"):
                    if k in nc.variables:
                        before[k] = np.ma.array(nc[k][:])
                copied.update(nc.variables)

        g, v, data, value, span, _ = call(name, tmp, keep, given)
        check_common(g, value, given, where)
        y, m, d = DAY[spec["day"]]
        place = PLACE[spec["place"]]
        want = {"cloudnet_file_type": short, "year": y, "month": m, "day": d, "location": place, "title": f"{title} products from {place}"}
        for k, x in want.items():
            check(g.get(k) == x, lambda: f"{where}: {k} is {g.get(k)!r}, not {x!r}")
        for k in ("source", "source_instrument_pids", "instrument_pid", "voodoonet_version"):
            check(g.get(k) == atts.get(k), lambda: f"{where}: {k} is {g.get(k)!r}, not {atts.get(k)!r}")
        check(g.get("source_file_uuids", "") == atts.get("file_uuid", ""), lambda: f"{where}: source_file_uuids {g.get('source_file_uuids')!r}")
        for doi in dois:
            check(doi in g["references"], lambda: f"{where}: references {g['references']} lack {doi}")
        lines = atts["history"].split("\n") if "history" in atts else []
        check_history(g["history"], lines, title.lower(), span, where)
        check(v["time"]["units"] == f"hours since {y}-{int(m):02}-{int(d):02} 00:00:00 +00:00", lambda: f"{where}: time unit {v['time']['units']}")
        for k, x in before.items():
            check(k in data and np.ma.allequal(data[k], x), lambda: f"{where}: {k} is not that of the categorize file")
        for k, a in v.items():
            check(k in copied or (a.get("units") and a.get("long_name")), lambda: f"{where}: {k} has attributes {a}")
        states.append([name, sorted(atts), spec["day"], spec["place"], spec["uuid"], len(lines)])
    return Out(states=states, transitions=len(states) * 6, traces=len(states))


def run_eps(case, tmp) -> Out:
    """Dissipation rate: a product of two level 1b files."""
    from mc.checks import c23

    states = []
    n = 12
    sec = 43200 + 3 + 10.0 * np.arange(n)
    v = np.ma.array(c23.turbulent(n, 10.0, 8.0, 1e-3)[:, None])
    mt, mh, u, w = c23.steady(8.0)
    for word in case["words"]:
        atts = dict(zip(("radar", "model"), (attributes("radar", word[0]), attributes("model", word[1]))))
        where = f"dissipation rate of {word}"
        d = tempfile.mkdtemp(dir=tmp)
        files = [c23.radar_file(f"{d}/radar.nc", sec, [200.0], v), c23.model_file(f"{d}/model.nc", mt, mh, u, w)]
        day, place = DAY[word[2]], PLACE[word[2]]
        for path, a, kind in zip(files, atts.values(), ("radar", "model")):
            rewrite(path, a | {"cloudnet_file_type": kind} | ({"year": day[0], "month": day[1], "day": day[2], "location": place} if kind == "radar" else {}))
        given = {"": None, "s": NEW, "u": uuidlib.UUID(NEW)}[word[3]]
        t0 = datetime.datetime.now(datetime.timezone.utc)
        value = c23.process_radar(*files, f"{d}/e.nc", *([given] if given else []))
        t1 = datetime.datetime.now(datetime.timezone.utc)
        with netCDF4.Dataset(f"{d}/e.nc") as nc:
            g = {k: nc.getncattr(k) for k in nc.ncattrs()}
        shutil.rmtree(d)
        check_common(g, value, given, where)
        for k, x in {"cloudnet_file_type": "epsilon-radar", "year": day[0], "month": day[1], "day": day[2], "location": place}.items():
            check(g.get(k) == x, lambda: f"{where}: {k} is {g.get(k)!r}, not {x!r}")
        check(g.get("title", "").endswith(f" products from {place}"), lambda: f"{where}: title {g.get('title')!r}")
        uuids = sorted({a["file_uuid"] for a in atts.values() if "file_uuid" in a})
        have = [x for x in g.get("source_file_uuids", "").split(", ") if x]
        check(sorted(have) == uuids, lambda: f"{where}: source_file_uuids {have}, not {uuids}")
        src = {y for a in atts.values() for y in a["source"].split("\n")}
        check(set(g["source"].split("\n")) == src, lambda: f"{where}: source {g['source']!r}, not {src}")
        lines = [y for k, a in atts.items() if "history" in a for y in (a["history"].split("\n")[-1:] if k == "model" else a["history"].split("\n"))]
        check_history(g["history"], lines, EPS_TITLE(g), (t0, t1), where)
        check("10.5194/amt-13-5335-2020" in g["references"] and "10.1002/2015JD024543" in g["references"], lambda: f"{where}: references {g['references']}")
        states.append(list(word))
    return Out(states=states, transitions=len(states) * 6, traces=len(states))


def EPS_TITLE(g):
    t = g["title"].split(" products from ")[0]
    check("dissipation" in t.lower(), lambda: f"title {g['title']!r}")
    return t[0].lower() + t[1:]


# letter -> file type, title, source
LEVEL1 = {
    "mira": ("radar", "MIRA-35 cloud radar", "METEK MIRA-35"), "mira_35s": ("radar", "MIRA-35S cloud radar", "METEK MIRA-35S"),
    "copernicus": ("radar", "Copernicus cloud radar", "RAL Space Copernicus"), "galileo": ("radar", "Galileo cloud radar", "RAL Space Galileo"),
    "basta": ("radar", "BASTA cloud radar", "BASTA"), "bowtie": ("radar", "RPG-FMCW-94 cloud radar", "RPG-Radiometer Physics RPG-FMCW-94"),
    "mrr": ("rain-radar", "MRR-PRO rain radar", "METEK MRR-PRO"), "cl31": ("lidar", "CL31 ceilometer", "Vaisala CL31"), "cl51": ("lidar", "CL51 ceilometer", "Vaisala CL51"),
    "ct25k": ("lidar", "CT25k ceilometer", "Vaisala CT25k"), "cs135": ("lidar", "CS135 ceilometer", "Campbell Scientific CS135"),
    "chm15k": ("lidar", "CHM15k ceilometer", "Lufft CHM15k"), "chx": ("lidar", "CHM15kx ceilometer", "Lufft CHM15kx"), "cl61d": ("lidar", "CL61d ceilometer", "Vaisala CL61d"),
    "da10": ("lidar", "DA10 differential absorption lidar", "Vaisala DA10"), "polly": ("lidar", "PollyXT Raman lidar", "TROPOS PollyXT"),
    "rpg": ("radar", "RPG-FMCW-94 cloud radar", "RPG-Radiometer Physics RPG-FMCW-94"), "rpg_35": ("radar", "RPG-FMCW-35 cloud radar", "RPG-Radiometer Physics RPG-FMCW-35"),
    "hatpro": ("mwr", "HATPRO microwave radiometer", "RPG-Radiometer Physics HATPRO"), "lhatpro": ("mwr", "LHATPRO microwave radiometer", "RPG-Radiometer Physics LHATPRO"),
    "mp": ("mwr", "Microwave radiometer", "Radiometrics"), "los": ("mwr", "Microwave radiometer", "Radiometrics"),
    "ws_Granada": ("weather-station", "Weather station", "Weather station"), "ws_Hyytiälä": ("weather-station", "Weather station", "Weather station"),
    "gauge_fd": ("weather-station", "FD12P present weather sensor", "Vaisala FD12P"), "gauge_16": ("rain-gauge", "rain[e]H3 rain gauge", "LAMBRECHT meteo GmbH rain[e]H3"),
    "parsivel_tel1": ("disdrometer", "Parsivel2 disdrometer", "OTT HydroMet Parsivel2"), "thies": ("disdrometer", "LNM disdrometer", "Thies Clima LNM"),
    "rd80": ("disdrometer", "RD-80 disdrometer", "Distromet RD-80"),
}


def run_l1(case, tmp) -> Out:
    states = []
    name = case["letter"]
    kind, title, source = LEVEL1[name]
    for how, place in case["specs"]:
        given = {"": None, "s": NEW, "u": uuidlib.UUID(NEW)}[how]
        at = {}

        def change(inp, args, place=place, at=at):
            if place is not None and not name.startswith("ws_"):
                args[2] = args[2] | {"name": place}
            at["place"] = args[2]["name"]

        g, v, data, value, span, _ = call(name, tmp, change, given)
        where = f"{name} {how!r} {place!r}"
        check_common(g, value, given, where)
        for k, x in {"cloudnet_file_type": kind, "location": at["place"], "title": f"{title} from {at['place']}", "source": source}.items():
            check(g.get(k) == x, lambda: f"{where}: {k} is {g.get(k)!r}, not {x!r}")
        check_history(g["history"], [], kind, span, where)
        day = f"{g.get('year')}-{g.get('month')}-{g.get('day')}"
        check(re.fullmatch(r"\d{4}-\d\d-\d\d", day), lambda: f"{where}: date {day}")
        check(v["time"]["units"] == f"hours since {day} 00:00:00 +00:00", lambda: f"{where}: {v['time']['units']} on {day}")
        check(v["time"].get("calendar") == "standard" and v["time"].get("axis") == "T", lambda: f"{where}: time {v['time']}")
        t = np.ma.array(data["time"])
        check(0 <= t.min() and t.max() <= 24 and np.all(np.diff(t) > 0), lambda: f"{where}: time {t}")
        for k, a in v.items():
            check((a.get("units") or k.endswith("_bnds")) and a.get("long_name"), lambda: f"{where}: {k} has attributes {a}")
        states.append([name, how, place])
    return Out(states=states, transitions=len(states) * 6, traces=len(states))


def chunks(x, n):
    x = list(x)
    return [x[i : i + n] for i in range(0, len(x), n)]


def cases_cat(thorough):
    words = list(itertools.product(KINDS if thorough else "odlx", repeat=5)) if thorough else [
        w for w in itertools.product(KINDS, repeat=5) if sum(x not in "o" for x in w) <= 3 and len(set(w)) <= 3
    ]
    for absent in (3, 4):
        for w in itertools.product("odnl", repeat=4):
            words.append((*w[:absent], "-", *w[absent:]))
    return [{"words": ["".join(w) for w in c]} for c in chunks(words, 8)]


def cases_products():
    out = []
    hist = [attributes("radar", x).get("history") for x in "onlxt"]
    for name in PRODUCTS:
        specs = []
        for values in itertools.product(*[[None, *x] for x in GLOBAL.values()]):
            for i, h in enumerate((hist[0], hist[1], hist[3])):
                atts = {k: x for k, x in zip(GLOBAL, values) if x is not None} | ({"history": h} if h else {})
                specs.append({"atts": atts, "day": i, "place": (i + len(atts)) % 3, "uuid": ("", "s", "u")[(i + len(atts)) % 3]})
        for h, day, place, u in itertools.product(hist, range(3), range(3), ("", "s", "u")):
            atts = {k: x[0] for k, x in GLOBAL.items()} | ({"history": h} if h else {})
            specs.append({"atts": atts, "day": day, "place": place, "uuid": u})
        out += [{"name": name, "specs": c} for c in chunks(specs, 20)]
    return out


def cases_l1():
    return [{"letter": x, "specs": list(itertools.product(("", "s", "u"), (None, "Ny-Ålesund", "L'Aquila")))} for x in LEVEL1]


def run(ctx):
    ctx.assume("every instrument and model file names its source; product inputs name their location and date")
    ctx.assume("the model's history is represented by its last record")
    ctx.explore("categorize", run_cat, cases_cat(ctx.thorough), chunk=1, bound=("all 6^5" if ctx.thorough else "all words with at most 3 deviating sources and at most 3 kinds of the 6^5") + " combinations of what the five input files say of themselves, absent radiometer or disdrometer")
    ctx.explore("products", run_product, cases_products(), chunk=1, bound="6 products x all subsets of 5 global attributes x histories x dates x places x ways to give the identifier")
    words = [(a, b, (i + j) % 3, ("", "s", "u")[(i + 2 * j) % 3]) for i, a in enumerate(KINDS) for j, b in enumerate(KINDS)]
    ctx.explore("dissipation", run_eps, [{"words": c} for c in chunks(words, 6)], chunk=1, bound="6 x 6 things that radar and model file say of themselves x dates and places x ways to give the identifier")
    ctx.explore("level1b", run_l1, cases_l1(), chunk=1, bound="29 instruments x ways to give the identifier x site names")
