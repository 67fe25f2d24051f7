"""C20: where the instrument stood, from the best source there is."""

from __future__ import annotations

import importlib
import itertools
import math
import os

import netCDF4
import numpy as np

from mc import ncio
from mc.checks import c19
from mc.core import Out, check, untuple

LEVEL = "model_checking"

KEYS = ("latitude", "longitude", "altitude")
GPS = ("basta", "bowtie")
SITE = {"latitude": 51.25, "longitude": -1.5, "altitude": 100.0}
WORDS = {"AB": [0, 1], "BAC": [1, 0, 2], "AAB": [0, 2], "ABC": [0, 1, 2]}  # raw rows in time order, of equal times any
TIMES = {"A": 1, "B": 2, "C": 3}

# of three profiles
LAT = {
    "still": [60.1, 60.1002, 60.1004], "moving": [60.0, 60.5, 61.25], "zero": [0.0, 0.0, 0.0], "start": [0.0, 60.1, 60.1002],
    "gap": [60.0, 0.0, 61.25], "masked": [None] * 3, "holes": [60.1, None, 60.1004], "south": [-33.0, -33.5, -34.0],
    "noise": [60.1, 60.104, 60.109], "drift": [60.1, 60.111, 60.106], "low": [-33.2, -33.2, -33.2],
}
LON = {
    "still": [25.1, 25.1002, 25.1004], "moving": [25.0, 25.5, 26.25], "zero": [0.0, 0.0, 0.0], "start": [0.0, 25.1, 25.1002],
    "gap": [25.0, 0.0, 26.25], "masked": [None] * 3, "holes": [25.1, None, 25.1004], "east": [358.5, 358.5002, 358.5004],
    "noise": [25.1, 25.118, 25.109], "drift": [25.1, 25.122, 25.111], "little": [25.1, 25.111, 25.102],
    "wrap": [359.5, 0.5, 1.5], "west": [-10.0, -10.5, 179.5],
}
ALT = {"still": [920.0, 921.0, 922.0], "zero": [0.0, 0.0, 0.0], "deep": [-3.0, -3.0, -3.0], "holes": [920.0, None, 920.0]}
ONE = {"latitude": [51.5, -33.25, 0.0], "longitude": [358.5, 10.0, 180.0, 181.0, -75.25, 0.0], "altitude": [920.0, -3.0, 0.0]}
ATT = {
    "latitude": {"47.25N": 47.25, "47.25 N": 47.25, "33.5S": -33.5, "33.5 S": -33.5, "-33.5": -33.5, "47.25": 47.25, "Unknown": None, "": None},
    "longitude": {"7.5E": 7.5, "70.25W": -70.25, "-70.25": -70.25, "7.5": 7.5, "358.5E": 358.5, "Unknown": None, "": None},
    "altitude": {"920m": 920.0, "920 m": 920.0, "-3 m": -3.0, "-3": -3.0, "920.5": 920.5, "Unknown": None, "": None},
}


TEXT = ("ws_Granada", "ws_Hyytiälä", "gauge_16", "gauge_fd", "parsivel_tel1", "parsivel_csv", "thies", "rd80", "cl31", "cs135", "ct25k", "polly", "hatpro", "lhatpro", "mp", "los")
LIDARS = ("chm15k", "chx", "cl61d", "da10", "cl31", "cs135", "ct25k", "polly")
UNSAID = ("parsivel_tel1", "parsivel_csv", "thies", "rd80", "mp", "los")  # do not name the source


def rows_of(letter, word):
    n = len(word)
    return {"basta": WORDS[word], "bowtie": list(range(n))}.get(letter, list(range(n)))


def raw_values(key, spec, n):
    """The raw variable: None, a number or one value per raw profile."""
    kind = spec.get(key)
    if kind is None or isinstance(kind, (int, float)):
        return kind
    return {"latitude": LAT, "longitude": LON, "altitude": ALT}[key][kind][:n]


def decorate(path, spec, n):
    with netCDF4.Dataset(path, "a") as nc:
        time = nc["time"].dimensions
        m = nc["time"].shape[0]
        for key in KEYS:
            if key in nc.variables:
                nc.renameVariable(key, f"old_{key}")
            v = raw_values(key, spec["var"], n)
            if v is not None:
                nc.createVariable(key, "f8", () if not isinstance(v, list) else time, fill_value=-999.0)
                nc[key].units = "m" if key == "altitude" else "degree"
                if isinstance(v, list):
                    v = np.ma.masked_invalid([math.nan if x is None else x for x in v])[np.arange(m) * n // m]
                nc[key][...] = v
            att = key.capitalize()
            if att in nc.ncattrs():
                nc.delncattr(att)
            if spec["att"].get(key) is not None:
                nc.setncattr(att, spec["att"][key])


def degrees(x):
    return None if x is None else x - 360 if x > 180 else x


def mean(xs):
    return sum(xs) / len(xs)


def expected(letter, spec, rows, n):
    """key -> (source, list of accepted values or one value per profile)"""
    out = {}
    for key in KEYS:
        v = raw_values(key, spec["var"], n)
        per = v if isinstance(v, list) else [v] * n if v is not None else []
        if letter in GPS and key != "altitude" and any(x for x in per):
            out[key] = ("GPS", [x or None for x in per])
        elif key in spec["site"]:
            out[key] = ("site coordinates", [float(spec["site"][key])] * n)
        elif any(x is not None for x in per):
            out[key] = ("raw file", per)
        elif ATT[key].get(spec["att"].get(key)) is not None:
            out[key] = ("raw file", [ATT[key][spec["att"][key]]] * n)
    for key in ("longitude",):
        if key in out and letter not in UNSAID and "latitude" in out:
            out[key] = (out[key][0], [degrees(x) for x in out[key][1]])
    return out


def still(lat, lon):
    a, b = [x for x in lat if x is not None], [x for x in lon if x is not None]
    mid = (min(a) + max(a)) / 2
    return max(a) - min(a) <= 0.01 and max(b) - min(b) <= 0.01 / math.cos(math.radians(mid))


_BASE: dict = {}


def call(letter, tmp, name):
    """The recorded call and its input files."""
    d = os.path.join(tmp, name)
    os.mkdir(d)
    place, fname, args, kwargs = c19.record(letter, d)
    files = sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)
    return getattr(importlib.import_module(place), fname), list(args), kwargs, files


def letter_of(name, word):
    if name in ("mira", "copernicus", "galileo", "basta", "bowtie", "mrr"):
        files = [list(word)] if name == "bowtie" else [word]
        return ("c05", "run_case", {"radar": name, "files": files, "how": "file"})
    if name in ("chm15k", "chx", "cl61d", "da10"):
        return ("c07", "run_lidar", {"inst": name, "w": list(word), "o": {"model": "da10"} if name == "da10" else {}})
    return c19.letters()[name]


def base(name, word, tmp):
    """Height above the instrument in the plain conversion."""
    if (name, word) not in _BASE:
        fn, args, kw, _ = call(letter_of(name, word), tmp, "base")
        args[1] = os.path.join(tmp, "base.nc")
        fn(*args, **kw)
        v = ncio.read(args[1])["vars"]
        _BASE[name, word] = np.array(v["height"]["data"]) - np.ravel(v["altitude"]["data"])[0] if "height" in v else None
    return _BASE[name, word]


def run_geo(case, tmp) -> Out:
    states = []
    for k, spec in enumerate(case["specs"]):
        states.append(one(case["letter"], case["word"], untuple(spec), os.path.join(tmp, str(k))))
    return Out(states=states, transitions=len(states) * 3, traces=len(states))


def one(letter, word, spec, tmp):
    os.mkdir(tmp)
    n = len(word)
    agl = base(letter, word, tmp)
    fn, args, kw, files = call(letter_of(letter, word), tmp, "in")
    for p in files:
        if letter not in TEXT:
            decorate(p, spec, n)
    site = {k: v for k, v in args[2].items() if k not in KEYS} | spec["site"]
    args[1], args[2] = os.path.join(tmp, "out.nc"), site
    rows = rows_of(letter, word)
    want = expected(letter, spec, rows, n)
    fn(*args, **kw)
    got = ncio.read(args[1])["vars"]
    where = f"{letter} {word} {spec}"
    values = {}
    for key in KEYS:
        if key not in want:
            check(key not in got, lambda: f"{where}: {key} invented: {got[key]['data']}")
            continue
        if letter in LIDARS and want[key][0] == "raw file" and key not in got:
            continue
        check(key in got, lambda: f"{where}: {key} missing")
        g = got[key]
        source, per = want[key]
        check(letter in UNSAID or g["attrs"].get("source") == source, lambda: f"{where}: source of {key} is {g['attrs'].get('source')}, not {source}")
        values[key] = g["data"]
        if key == "altitude":
            fixed = True
        elif "latitude" in want and "longitude" in want:
            fixed = still(want["latitude"][1], want["longitude"][1])
        else:
            fixed = len(set(per)) == 1
        kept = [per[i] for i in rows]
        if fixed:
            have = [x for x in per if x is not None]
            one = set(np.ravel(g["data"]).tolist())
            check(len(one) == 1, lambda: f"{where}: {key} of a fixed site varies: {g['data']}")
            at = one.pop()
            check(at is not None and min(have) - 2e-5 * (1 + abs(min(have))) <= at <= max(have) + 2e-5 * (1 + abs(max(have))),
                  lambda: f"{where}: {key} {at} is not of {per}")
        else:
            check(g["dims"] == ["time"], lambda: f"{where}: {key} of a moving site has dimensions {g['dims']}")
            options = [kept] if word != "AAB" or letter != "basta" else [kept, [per[1], per[2]]]
            check(any(ncio.same(g["data"], o, 2e-5) for o in options), lambda: f"{where}: {key} is {g['data']}, not {options}")
    if agl is not None and "altitude" in want:
        h = np.array(got["height"]["data"])
        check(h.shape == agl.shape and np.allclose(h, agl + np.ravel(values["altitude"])[0], atol=0.02),
              lambda: f"{where}: height does not fit the altitude {values['altitude']}: {h[:3].tolist()}")
    return [letter, word, spec]


def chunks(x, n=12):
    return [x[i : i + n] for i in range(0, len(x), n)]


def sites():
    s = SITE
    return [dict(s), {}, {k: s[k] for k in ("latitude", "longitude")}, {"altitude": 100.0}, {"latitude": "51.25", "longitude": "-1.5", "altitude": "100"},
            {"latitude": 0.0, "longitude": 0.0, "altitude": 0.0}, {"latitude": -51.25, "longitude": 358.5, "altitude": -3.0}, {"latitude": 51.25, "altitude": 100}]


def sites_of(letter):
    """Lidar and some radiometer conversions ask for a numeric site altitude."""
    return [s for s in sites() if letter not in (*LIDARS, "mp", "los") or isinstance(s.get("altitude"), (int, float))]


def cases_gps():
    out = []
    for letter in GPS:
        for word in ("AB", "BAC", "AAB", "ABC") if letter == "basta" else ("AB", "ABC"):
            specs = []
            for la, lo in itertools.product([None, 51.5, *LAT], [None, 358.5, *LON]):
                for site in (dict(SITE), {"altitude": 100.0}):
                    v = {k: x for k, x in (("latitude", la), ("longitude", lo)) if x is not None}
                    if not paired(v, site):
                        continue
                    specs.append({"var": v, "att": {}, "site": site})
            out += [{"letter": letter, "word": word, "specs": c} for c in chunks(specs)]
    return out


def paired(v, site):
    """Both coordinates or none, and both for the instrument or for every profile."""
    kinds = []
    for key, table in (("latitude", LAT), ("longitude", LON)):
        x = v.get(key)
        if isinstance(x, str) and any(table[x]):
            kinds.append("profile")
        elif x in (None, "masked") or isinstance(x, str):
            kinds.append("fixed" if key in site else x)
        else:
            kinds.append("fixed")
    return kinds[0] == kinds[1]


def cases_raw():
    out = []
    for letter in ("copernicus", "galileo", "mrr", "chm15k", "chx", "cl61d", "da10", "basta", "mira"):
        specs = []
        for site in sites_of(letter):
            for la, lo, al in itertools.product(ONE["latitude"], ONE["longitude"], ONE["altitude"]):
                v = {"latitude": la, "longitude": lo, "altitude": al}
                if letter == "basta" and (not la or not lo):
                    continue
                specs.append({"var": v, "att": {}, "site": site})
            if letter in ("mrr", "chm15k", "cl61d", "mira"):
                for la, lo, al in itertools.product((None, "still", "holes", "masked"), repeat=3):
                    v = {k: x for k, x in zip(KEYS, (la, lo, al if al != "masked" else "deep")) if x}
                    w = {k: x for k, x in v.items() if x != "masked"}
                    if paired(w, site) and ("altitude" in w or "altitude" in site):
                        specs.append({"var": v, "att": {}, "site": site})
        out += [{"letter": letter, "word": "ABC", "specs": c} for c in chunks(specs)]
    return out


def cases_att():
    specs = []
    for site in sites():
        for la, lo, al in itertools.product(ATT["latitude"], ATT["longitude"], ATT["altitude"]):
            att = {"latitude": la, "longitude": lo, "altitude": al}
            if "altitude" not in site and ATT["altitude"][al] is None:
                continue
            specs.append({"var": {}, "att": att, "site": site})
        for keys in itertools.product((0, 1), repeat=3):
            att = {k: list(ATT[k])[0] for k, u in zip(KEYS, keys) if u}
            if "altitude" in att or "altitude" in site:
                specs.append({"var": {}, "att": att, "site": site})
    return [{"letter": "mira", "word": "AB", "specs": c} for c in chunks(specs)]


def cases_site():
    out = []
    for letter in TEXT:
        specs = [{"var": {}, "att": {}, "site": s} for s in sites_of(letter) if "altitude" in s]
        out.append({"letter": letter, "word": "AB", "specs": specs})
    return out


def run(ctx):
    ctx.assume("a position of zero degrees in both GPS variables' sense means no fix; coordinates of fixed sites may be any mean of the raw positions")
    ctx.explore("gps", run_geo, cases_gps(), chunk=2, bound="13 x 15 kinds of GPS latitude and longitude x site x order of profiles for BASTA and BOW-TIE")
    ctx.explore("raw", run_geo, cases_raw(), chunk=2, bound="8 site descriptions x raw coordinates (scalar, per profile, missing) for 9 instruments")
    ctx.explore("attributes", run_geo, cases_att(), chunk=2, bound="8 site descriptions x all combinations of 8 x 7 x 7 coordinate attributes of MIRA files")
    ctx.explore("site", run_geo, cases_site(), chunk=1, bound="6 site descriptions x 16 instruments without coordinates of their own")
