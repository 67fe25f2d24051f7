"""C28: microwave radiometer products keep the measurements and their provenance."""

from __future__ import annotations

import contextlib
import datetime
import itertools
import os
import uuid as uuidlib
from pathlib import Path

import netCDF4
import numpy as np
from numpy import ma

from mc import ncio
from mc.core import check

LEVEL = "model_checking"
DATE = datetime.date(2026, 3, 7)
MIDNIGHT = int(datetime.datetime(2026, 3, 7, tzinfo=datetime.timezone.utc).timestamp())
MODELS = {"hatpro": "HATPRO", "lhatpro": "LHATPRO", "lhumpro_u90": "LHUMPRO-U90"}
SITE = {"latitude": 61.5, "longitude": -24.25, "altitude": 150.0}
F = 7  # frequencies: mwrpy takes any array as long as the times for a series
FILL = ("tb", "t_amb", "irt", "air_temperature", "elevation_angle")


# ---------------------------------------------------------------- level 1c

def raw_data(case):
    """What the radiometer recorded, in the order of its files."""
    times = np.array([MIDNIGHT + t for t in case["times"]], dtype=np.int64)
    n = len(times)
    f = F
    data = {"time": times, "time_bnds": np.stack([times - 1, times], axis=1), "frequency": np.array([22.0, 23.0, 25.0, 31.0, 51.0, 54.0, 58.0]), "receiver_nb": np.array([1, 2]), "receiver": np.array([1, 1, 1, 1, 2, 2, 2])}
    k = ranks(case)  # equal times have equal measurements: which of them stays is not judged
    data["tb"] = ma.array((20 + k[:, None] * 8 + np.arange(f)).astype("f4"))
    data["azimuth_angle"] = ma.array((k * 10.5).astype("f4"))
    data["elevation_angle"] = ma.array(np.array([(90, 60.5, 4.5, 30)[i % 4] for i in k], "f4"))
    data["t_amb"] = ma.array((280 + k[:, None] + np.array([0, 0.5])).astype("f4"))
    data["t_rec"] = ma.array((310 + k[:, None] + np.array([0, 0.25])).astype("f4"))
    data["air_temperature"] = ma.array((270.5 + k).astype("f4"))
    data["liquid_cloud_flag"] = (k % 3).astype("i4")
    if case["ir"]:
        data["ir_wavelength"] = np.array([1e-5, 1.2e-5][: case["ir"]])
        data["ir_bandwidth"] = 1e-7
        data["irt"] = ma.array((200 + k[:, None] + np.arange(case["ir"])).astype("f4"))
        data["ir_azimuth_angle"] = ma.array((k * 2.5).astype("f4"))
        data["ir_elevation_angle"] = ma.array((80 - k * 5).astype("f4"))
    for key in ("latitude", "longitude"):
        data[key] = ma.masked_all(n, "f4")
        for i, v in enumerate(positions(case, key)):
            if v is not None:
                data[key][i] = v
    data["altitude"] = np.full(n, case.get("own_altitude", 150.0), "f4")
    for key in FILL:
        if case["missing"] and key in data:
            data[key][k == case["missing"] - 1] = ma.masked
    return data


def ranks(case):
    order = sorted(set(case["times"]))
    return np.array([order.index(t) for t in case["times"]])


def positions(case, key):
    listed = GPS[case["gps"]][key]
    return [listed[i] if i < len(listed) else None for i in ranks(case)]


GPS = {
    "none": {"latitude": [], "longitude": []}, "zero": {"latitude": [0] * 8, "longitude": [0] * 8},
    "still": {"latitude": [60.25, 60.25, 60.255] + [60.25] * 5, "longitude": [25.5] * 8},
    "gaps": {"latitude": [None, 60.25, 0] + [60.25] * 5, "longitude": [25.5, None, 0] + [25.5] * 5},
    "moving": {"latitude": [60, 60.5, 61, 61.5, 62, 62.5, 63, 63.5], "longitude": [25.5] * 8},
}


@contextlib.contextmanager
def recorded(case, seen):
    """The measurements in the place of the binary files, everything else as it is."""
    import mwrpy.level1.write_lev1_nc as w
    from mwrpy.level1.rpg_bin import RpgBin

    def prepare(path_to_files, data_type, params, lidar_path=None, time_offset=None, altitude=None, azimuth_offset=None, date=None):
        seen.update(path=os.path.realpath(path_to_files), data_type=data_type, lidar=lidar_path, offset=time_offset, site={k: params.get(k) for k in SITE}, kind=params["type"], azimuth=azimuth_offset)
        if case.get("no_files"):
            raise w.MissingInputData("No BRT files found")
        obj = object.__new__(RpgBin)
        obj.data = raw_data(case)
        return obj

    def qc(site, data_in, params, coeff_files):
        seen["coeffs"] = list(coeff_files)
        n = len(case["times"])
        data_in.data["quality_flag"] = np.array(case["flags"], dtype="i4").reshape(n, F)
        data_in.data["quality_flag_status"] = np.zeros((n, F), "i4")

    def met(data, params, altitude):
        data["met_quality_flag"] = np.zeros(len(data["time"]), "i4")

    old = w.prepare_data, w.apply_qc, w.apply_met_qc
    w.prepare_data, w.apply_qc, w.apply_met_qc = prepare, qc, met
    try:
        yield
    finally:
        w.prepare_data, w.apply_qc, w.apply_met_qc = old


LIDAR_SOURCE, LIDAR_HISTORY = "Lufft CHM 15k", "2026-03-08 00:00:00 +00:00 - mwr-like lidar file created"


def lidar(tmp):
    path = f"{tmp}/lidar.nc"
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        nc.createDimension("time", 2)
        nc.createDimension("height", 2)
        v = nc.createVariable("time", "f8", ("time",))
        v.units = "hours since 2026-03-07 00:00:00 +00:00"
        v[:] = [1, 2]
        nc.createVariable("height", "f4", ("height",))[:] = [10, 20]
        nc.createVariable("beta", "f4", ("time", "height"), fill_value=-1.0)[:] = 1e-6
        nc.source, nc.history = LIDAR_SOURCE, LIDAR_HISTORY
    return path


def asks(site, date):
    return {None: None, "text": DATE.isoformat(), "date": DATE, "other": "2026-03-06"}[date]


def convert(case, tmp, path):
    from cloudnetpy.instruments import hatpro

    os.makedirs(f"{tmp}/raw", exist_ok=True)
    site = {"name": case.get("name", "Kumpula"), "coefficientFiles": [f"{tmp}/c{i}.ret" for i in range(len(case["links"]))], "coefficientLinks": list(case["links"])}
    for key in case["site"]:
        site[key] = SITE[key]
    if case.get("offset"):
        site["time_offset"] = datetime.timedelta(hours=2)
    kwargs = {}
    if case["lidar"]:
        kwargs["lidar_file"] = lidar(tmp)
    if case["uuid"] == "text":
        kwargs["uuid"] = "12345678-1234-4234-9234-123456789abc"
    elif case["uuid"] == "object":
        kwargs["uuid"] = uuidlib.UUID("12345678-1234-4234-9234-123456789abc")
    seen = {}
    with recorded(case, seen):
        got = hatpro.hatpro2l1c(f"{tmp}/raw", path, site, instrument_type=case["kind"], date=asks(site, case["date"]), **kwargs)
    return got, seen, site


def expected_rows(case):
    """Rows that are written, in order: of every time the first one after sorting by time, on the day."""
    if case["date"] in ("text", "date"):
        day = 0
    elif case["date"] == "other":
        day = -1
    else:
        day = int(np.median(case["times"]) // 86400)
    order = sorted({t: i for i, t in reversed(list(enumerate(case["times"]))) if t // 86400 == day}.items())
    return day, [i for _, i in order]


def run_l1c(case, tmp):
    from cloudnetpy.exceptions import HatproDataError

    path = f"{tmp}/out.nc"
    day, rows = expected_rows(case)
    flags = np.array(case["flags"]).reshape(-1, F)[rows] if rows else np.zeros((0, F))
    refuse = case.get("no_files") or not rows or np.count_nonzero(flags) * 10 > flags.size * 9
    try:
        got, seen, site = convert(case, tmp, path)
    except HatproDataError:
        check(refuse, "a day with enough good measurements is refused")
        return None
    except RuntimeError:
        check(not rows, "a day with measurements is refused")
        return None
    check(not refuse, f"{np.count_nonzero(flags)} of {flags.size} flagged values, or no files, yet a file is made")
    where = f"{tmp}/raw"
    check(seen["path"] == os.path.realpath(where) and seen["data_type"] == "1C01", f"reads {seen['path']} as {seen['data_type']}")
    check((seen["lidar"] is not None) == case["lidar"] and seen["offset"] == (datetime.timedelta(hours=2) if case.get("offset") else None), f"lidar {seen['lidar']} offset {seen['offset']}")
    check(seen["kind"] == case["kind"] and seen["coeffs"] == site["coefficientFiles"], f"{seen['kind']}: coefficients {seen['coeffs']}")
    for key in SITE:
        check(seen["site"][key] == (SITE[key] if key in case["site"] else None), f"{key} of the site is {seen['site'][key]}")
    raw = raw_data(case)
    with netCDF4.Dataset(path) as nc:
        def value(key):
            return ma.masked_array(nc[key][:])

        # time
        hours = [(case["times"][i] - 86400 * day) / 3600 for i in rows]
        if len(rows) == 1 and hours[0] == 0:
            hours = None
        date = DATE + datetime.timedelta(days=day)
        if hours is not None:
            check(np.allclose(value("time"), hours, rtol=0, atol=1e-9), f"times {value('time')} instead of {hours}")
        check(nc["time"].units == f"hours since {date} 00:00:00 +00:00", f"units of time {nc['time'].units}")
        check((nc.year, nc.month, nc.day) == tuple(date.isoformat().split("-")), "date of the file")
        # measurements
        want = {"quality_flag": flags}
        for key in ("tb", "azimuth_angle", "t_amb", "t_rec", "air_temperature", "liquid_cloud_flag", "irt", "ir_azimuth_angle"):
            if key in raw:
                want[key] = raw[key][rows]
        for key in ("elevation_angle", "ir_elevation_angle"):
            if key in raw:
                want[key.replace("elevation", "zenith")] = 90 - raw[key][rows]
                want[key] = raw[key][rows]
        for key in ("frequency", "receiver", "receiver_nb", "ir_wavelength", "ir_bandwidth"):
            if key in raw:
                want[key] = raw[key]
        for key, w in want.items():
            if key not in nc.variables:
                check(key in ("elevation_angle", "ir_elevation_angle"), f"{key} is missing")
                continue
            g = value(key)
            w = ma.masked_array(w)
            check(g.shape == w.shape, f"{key} has shape {g.shape} instead of {w.shape}")
            check(np.array_equal(ma.getmaskarray(g), ma.getmaskarray(w)), f"{key} is missing at {ma.getmaskarray(g).tolist()} instead of {ma.getmaskarray(w).tolist()}")
            check(np.allclose(g.compressed(), w.compressed(), rtol=1e-6), f"{key} is {g.tolist()} instead of {w.tolist()}")
        dims = {"t_amb": ("time", "t_amb_nb"), "tb": ("time", "frequency"), "t_rec": ("time", "receiver_nb"), "zenith_angle": ("time",)} | ({"irt": ("time", "ir_channel"), "ir_wavelength": ("ir_channel",), "ir_zenith_angle": ("time",)} if case["ir"] else {})
        for key, d in dims.items():
            check(nc[key].dimensions == d, f"{key} has dimensions {nc[key].dimensions}")
        check("time_bnds" not in nc.variables, "bounds of time without their dimension")
        for key, unit in (("tb", "K"), ("zenith_angle", "degree"), ("t_amb", "K"), ("altitude", "m")):
            check(nc[key].units == unit, f"{key} in {nc[key].units}")
        # place
        gps = [[v or None for v in positions(case, k)] for k in ("latitude", "longitude")]
        gps = [[p[i] for i in rows] for p in gps]
        place = []
        for key, p in zip(("latitude", "longitude"), gps):
            place.append(("GPS", p) if any(v is not None for v in p) else ("site coordinates", [SITE[key]]))
        lat, lon = ([v for v in p[1] if v is not None] for p in place)
        still = max(lat) - min(lat) <= 0.01 and max(lon) - min(lon) <= 0.01 / np.cos(np.radians((max(lat) + min(lat)) / 2))
        for key, (source, p) in zip(("latitude", "longitude"), place):
            check(nc[key].source == source, f"{key} from {nc[key].source} instead of {source}")
            w = ma.masked_invalid([np.nan if v is None else v for v in p])
            if still:
                check(np.all(np.abs(value(key) - float(ma.mean(w))) < 1e-3), f"{key} {nc[key][:]} instead of {ma.mean(w)}")
            else:
                check(nc[key].dimensions == ("time",) and ncio.same(value(key).filled(np.nan).tolist(), w.filled(np.nan).tolist(), 1e-5), f"{key} {value(key)} instead of {w}")
        check(nc["altitude"].source == "site coordinates" and np.all(value("altitude") == SITE["altitude"]), f"altitude {nc['altitude'][:]}")
        # provenance
        name = site["name"]
        check(nc.location == name and nc.cloudnet_file_type == "mwr-l1c", f"{nc.cloudnet_file_type} from {nc.location}")
        check(nc.title.startswith(MODELS[case["kind"]] + " ") and nc.title.endswith(f" from {name}") and "Level 1c" in nc.title, f"title {nc.title}")
        source = [f"RPG-Radiometer Physics {MODELS[case['kind']]}"] + ([LIDAR_SOURCE] if case["lidar"] else [])
        check(nc.source.split("\n") == source, f"source {nc.source!r}")
        history = nc.history.split("\n")
        check(history[0].endswith(" - mwr-l1c file created") and history[1:] == ([LIDAR_HISTORY] if case["lidar"] else []), f"history {nc.history!r}")
        check(nc.mwrpy_coefficients == ", ".join(case["links"]), f"coefficients {nc.mwrpy_coefficients}")
        check(isinstance(got, uuidlib.UUID) and nc.file_uuid == str(got), f"file_uuid {nc.file_uuid}, returned {got!r}")
        if case["uuid"]:
            check(nc.file_uuid == "12345678-1234-4234-9234-123456789abc", f"file_uuid {nc.file_uuid}")
    return None


# ------------------------------------------------------------------ level 2

PRODUCTS = {"single": ("2I01", "2I02", "2P01", "2P03", "2P04", "2P07", "2P08", "2I06"), "lhumpro": ("2I01", "2I02", "2P03"), "multi": ("2P02", "2P03", "2P04", "2P07", "2P08")}
NAMES = {"2I01": "lwp", "2I02": "iwv", "2P01": "temperature", "2P02": "temperature", "2P03": "absolute_humidity", "2P04": "relative_humidity", "2P07": "potential_temperature", "2P08": "equivalent_potential_temperature"}
WRITES = {"single": ("lwp", "iwv", "temperature", "absolute_humidity", "relative_humidity", "potential_temperature", "equivalent_potential_temperature"), "lhumpro": ("lwp", "iwv", "absolute_humidity"), "multi": ("temperature", "relative_humidity", "potential_temperature", "equivalent_potential_temperature")}


def retrieval(name, n, seed):
    """What the retrieval gives"""
    k = np.arange(n) + seed
    if name in ("lwp", "iwv"):
        return (k * 0.0625 + len(name)).astype("f4")
    return (k[:, None] * 0.5 + np.arange(2) * 0.25 + len(name)).astype("f4")


@contextlib.contextmanager
def retrieved(case, calls):
    import mwrpy.level2.lev2_collocated as m
    from mwrpy.exceptions import MissingInputData

    def lev2(data_type, lev1_file, output_file, data_format, temp_file=None, hum_file=None, lwp_offset=(None, None), coeff_files=None):
        calls.append((data_type, os.path.realpath(lev1_file), tuple(lwp_offset), [(os.path.basename(p), Path(p).read_bytes()) for p in coeff_files]))
        if data_type == case.get("missing"):
            raise MissingInputData(f"No data for product {data_type}.")
        if data_type == "2I06":
            raise IndexError
        name = NAMES[data_type]
        n = case["n"]
        with netCDF4.Dataset(output_file, "w", format="NETCDF4_CLASSIC") as nc:
            nc.createDimension("time", n)
            nc.createDimension("height", 2)
            v = nc.createVariable("time", "f4", ("time",))
            v.units, v.standard_name = "hours since 2026-03-07 00:00:00 +00:00", "time"
            v[:] = np.arange(n) * 0.5
            v = nc.createVariable("height", "f4", ("height",))
            v[:] = [150, 200]
            for key in ("latitude", "longitude", "altitude", "elevation_angle", "azimuth_angle"):
                v = nc.createVariable(key, "f4", ("time",))
                v.units, v.long_name = "?", "something"
                v[:] = np.arange(n) + 40
            profile = name not in ("lwp", "iwv")
            v = nc.createVariable(name, "f4", ("time", "height") if profile else ("time",), fill_value=-9999.0)
            v.units, v.long_name, v.standard_name = {"lwp": "kg m-2", "iwv": "kg m-2"}.get(name, "K"), "something", "air_temperature" if name == "temperature" else "whatever"
            v[:] = retrieval(name, n, case["seed"])
            for key in case["holes"]:
                if key < n:
                    v[key] = ma.masked
            flags = case["flags"] if name == case["watched"] else case["other"]
            v = nc.createVariable(f"{name}_quality_flag", "i4", ("time",), fill_value=-99)
            v[:] = ma.masked_equal(flags, -99)
            for k in ("location", "history", "source", "title", "mwrpy_coefficients", "comment", "instrument_pid"):
                nc.setncattr(k, f"{k} of the retrieval")
            nc.year, nc.month, nc.day = "1999", "01", "01"

    old = m.lev2_to_nc
    m.lev2_to_nc = lev2
    try:
        yield
    finally:
        m.lev2_to_nc = old


@contextlib.contextmanager
def web(log, broken=None):
    import requests

    def send(self, method, url, **kwargs):
        log.append(url)
        answer = requests.Response()
        answer.status_code = 404 if url == broken else 200
        answer._content = b"not found" if url == broken else b"content of " + url.encode()
        answer.url = url
        return answer

    old = requests.Session.request
    requests.Session.request = send
    try:
        yield
    finally:
        requests.Session.request = old


L1C_ATTRS = {"location": "Kumpula", "year": "2026", "month": "03", "day": "07", "source": "RPG-Radiometer Physics HATPRO\nLufft CHM 15k", "history": "2026-03-08 00:00:00 +00:00 - mwr-l1c file created\n2026-03-07 20:00:00 +00:00 - lidar file created", "file_uuid": "12345678-1234-4234-9234-123456789abc", "title": "HATPRO microwave radiometer Level 1c from Kumpula"}
PID = "https://hdl.handle.net/21.12132/3.0123456789abcdef"


def run_l2(case, tmp):
    from cloudnetpy.exceptions import ValidTimeStampError
    from cloudnetpy.products import mwr_tools

    source = f"{tmp}/l1c.nc"
    if case.get("chain"):
        base = {"times": [0, 1800, 3600], "flags": [0] * 21, "ir": 1, "gps": "none", "missing": 0, "links": case["links"], "site": tuple(SITE), "lidar": case["chain"] == "lidar", "uuid": None, "kind": case["kind"], "date": "text"}
        convert(base, tmp, source)
    else:
        with netCDF4.Dataset(source, "w", format="NETCDF4_CLASSIC") as nc:
            nc.setncatts(L1C_ATTRS)
            nc.mwrpy_coefficients = ", ".join(case["links"])
    if case["pid"]:
        with netCDF4.Dataset(source, "a") as nc:
            nc.instrument_pid = PID
    with netCDF4.Dataset(source) as nc:
        attrs = {k: nc.getncattr(k) for k in nc.ncattrs()}
    digest = ncio.filehash(source)
    output = f"{tmp}/out.nc"
    product = case["product"]
    fn = getattr(mwr_tools, f"generate_mwr_{product}")
    kwargs = {}
    if product != "multi" and case["offset"] is not None:
        kwargs["lwp_offset"] = tuple(case["offset"])
    if case["uuid"] == "text":
        kwargs["uuid"] = "abcdefab-1234-4234-9234-123456789abc"
    elif case["uuid"] == "object":
        kwargs["uuid"] = uuidlib.UUID("abcdefab-1234-4234-9234-123456789abc")
    calls, log = [], []
    refuse = case.get("missing") or not any(f == 0 for f in case["flags"])
    broken = case["links"][case["broken"]] if "broken" in case else None
    if broken is not None:
        import requests

        try:
            with retrieved(case, calls), web(log, broken):
                fn(source, output, **kwargs)
        except requests.RequestException:
            return None
        check(False, f"a file is made without {broken}")
    try:
        with retrieved(case, calls), web(log):
            got = fn(source, output, **kwargs)
    except ValidTimeStampError:
        check(refuse, f"flags {case['flags']}: refused")
        check(ncio.filehash(source) == digest, "the input file has changed")
        return None
    check(not refuse, f"flags {case['flags']}, missing {case.get('missing')}: a file is made")
    check(ncio.filehash(source) == digest, "the input file has changed")
    made = [c[0] for c in calls]
    check([c for c in PRODUCTS[product] if c in made] == list(PRODUCTS[product]), f"{product} from retrievals {made}")
    check(log == case["links"], f"downloads {log} instead of {case['links']}")
    want = [b"content of " + link.encode() for link in case["links"]]
    for kind, where, offset, coeffs in calls:
        check(where == os.path.realpath(source), f"{kind} from {where}")
        check([c[1] for c in coeffs] == want, f"{kind} gets coefficients {coeffs}")
        check([c[0] for c in coeffs] == [link.rsplit("/", 1)[-1] for link in case["links"]], f"{kind} gets coefficients {[c[0] for c in coeffs]}")
        if kind == "2I01":
            check(offset == (tuple(case["offset"]) if case["offset"] is not None else (None, None)), f"{kind} gets offset {offset} instead of {case['offset']}")
    n = case["n"]
    with netCDF4.Dataset(output) as nc:
        for name in WRITES[product]:
            w = ma.array(retrieval(name, n, case["seed"]))
            for i in case["holes"]:
                if i < n:
                    w[i] = ma.masked
            g = ma.masked_array(nc[name][:])
            check(g.shape == w.shape and np.array_equal(ma.getmaskarray(g), ma.getmaskarray(w)) and np.array_equal(g.compressed(), w.compressed()), f"{name} is {g.tolist()} instead of {w.tolist()}")
        flags = case["flags"]
        g = ma.masked_array(nc[f"{case['watched']}_quality_flag"][:]).filled(-99).tolist()
        check(g == list(flags), f"flags {g} instead of {flags}")
        check(np.array_equal(nc["time"][:], np.arange(n) * 0.5), f"times {nc['time'][:]}")
        for key in ("latitude", "longitude", "altitude", "azimuth_angle"):
            check(np.array_equal(nc[key][:], np.arange(n) + 40), f"{key} {nc[key][:]}")
        units = {"temperature": "K", "lwp": "kg m-2", "iwv": "kg m-2", "latitude": "degree_north", "longitude": "degree_east", "altitude": "m", "azimuth_angle": "degree"}
        standard = {"temperature": "air_temperature", "lwp": "atmosphere_cloud_liquid_water_content", "iwv": "atmosphere_mass_content_of_water_vapor", "latitude": "latitude", "longitude": "longitude", "altitude": "altitude"}
        for key, unit in units.items():
            if key in nc.variables:
                check(nc[key].units == unit, f"{key} in {nc[key].units}")
                check(nc[key].long_name != "something", f"{key} is called {nc[key].long_name}")
                if key in standard:
                    check(nc[key].standard_name == standard[key], f"{key} is {nc[key].standard_name}")
        check(nc["time"].units == f"hours since {attrs['year']}-{attrs['month']}-{attrs['day']} 00:00:00 +00:00" and nc["time"].calendar == "standard" and nc["time"].standard_name == "time", f"time in {nc['time'].units}")
        for key in ("year", "month", "day", "location", "source"):
            check(nc.getncattr(key) == attrs[key], f"{key} is {nc.getncattr(key)} instead of {attrs[key]}")
        check("comment" not in nc.ncattrs(), "an attribute of the retrieval stays")
        kind = "multi" if product == "multi" else "single"
        words = {"multi": "multiple-pointing", "single": "single-pointing"}[kind]
        check(nc.cloudnet_file_type == f"mwr-{kind}" and words in nc.title and nc.title.endswith(f"from {attrs['location']}"), f"{nc.cloudnet_file_type}: {nc.title}")
        history = [ln.rstrip() for ln in nc.history.split("\n")]
        check(words in history[0] and history[0].endswith("file created") and history[1:] == attrs["history"].split("\n"), f"history {nc.history!r}")
        check(nc.source_file_uuids == attrs["file_uuid"], f"source_file_uuids {nc.source_file_uuids}")
        check(getattr(nc, "instrument_pid", None) == (PID if case["pid"] else None), f"instrument_pid {getattr(nc, 'instrument_pid', None)}")
        check(isinstance(got, uuidlib.UUID) and nc.file_uuid == str(got) and nc.file_uuid != attrs["file_uuid"], f"file_uuid {nc.file_uuid}, returned {got!r}")
        if case["uuid"]:
            check(nc.file_uuid == "abcdefab-1234-4234-9234-123456789abc", f"file_uuid {nc.file_uuid}")
    return None


# -------------------------------------------------------------------- cases

URL = "https://cloudnet.fmi.fi/api/calibration"
SAME = [f"{URL}/LWP.2024", f"{URL}/LWP.2025", f"{URL}/LWP"]
LINKS = [[f"{URL}/SPC_1.ret"], [f"{URL}/b/TPB_x.ret", f"{URL}/a/LWP_y.ret", f"{URL}/IWV_z.ret"]]
TIMES = {"day": [0, 1800, 43200, 86399], "mixed": [7200, 3600, 7200, 10800, 5400], "next": [43200, 82800, 86400, 90000, 86399], "previous": [-3600, 0, 3600, 7200], "late": [86399, 86398, 86390], "one": [3600], "away": [90000, 90060, 90120]}
BASE = {"times": TIMES["day"], "flags": [0] * 28, "ir": 1, "gps": "none", "missing": 0, "links": LINKS[1], "site": tuple(SITE), "lidar": False, "uuid": None, "kind": "hatpro", "date": "text"}


def cases_l1c(thorough):
    out = []
    # every number of flagged values, flagged from either end, in any bit
    for n in (1, 3, 5, 10) if thorough else (1, 3, 5):
        for k in range(F * n + 1):
            for bit, side in itertools.product((1, 128), (0, 1)):
                flags = [bit] * k + [0] * (F * n - k)
                out.append(BASE | {"times": [60 * i + 60 for i in range(n)], "flags": flags[::-1] if side else flags})
    for k in range(9 * F - 3, 9 * F + 4):
        out.append(BASE | {"times": [60 * i for i in range(10)], "flags": [32] * k + [0] * (10 * F - k)})
    for name, times in TIMES.items():
        for date, pattern in itertools.product((None, "text", "date", "other"), ("good", "outside", "inside")):
            # values outside the day do not count
            flags = [[0] * F if pattern == "good" or (pattern == "outside") == (0 <= t < 86400) else [4] * F for t in times]
            c = BASE | {"times": [int(t) for t in times], "flags": sum(flags, []), "date": date}
            if len(set(c["times"])) != len(c["times"]) and pattern != "good":
                continue
            out.append(c)
    for kind, ir, gps, lid, u in itertools.product(MODELS, (0, 1, 2), GPS, (False, True), (None, "text", "object") if thorough else (None, "text")):
        out.append(BASE | {"kind": kind, "ir": ir, "gps": gps, "lidar": lid, "uuid": u})
    for gps, missing, name in itertools.product(GPS, range(5), ("day", "previous", "next")):
        out.append(BASE | {"gps": gps, "missing": missing, "times": TIMES[name], "flags": [0] * F * len(TIMES[name])})
    for links, off, name, lid in itertools.product([*LINKS, LINKS[1][::-1]], (0, 1), ("Kumpula", "Site with radiometer mwr"), (False, True)):
        out.append(BASE | {"links": links, "offset": off, "lidar": lid} | ({"name": name} if name != "Kumpula" else {}))
    out.append(BASE | {"no_files": True})
    return [c for c in out if c.get("name") is None or "radiometer" not in c["name"]] + [c | {"name": "Mount mwr"} for c in out[-5:-1]]


def cases_l2(thorough):
    out = []
    letters = (0, 1, 32, -99)
    for product in PRODUCTS:
        watched = "temperature" if product == "multi" else "lwp"
        base = {"product": product, "watched": watched, "links": LINKS[1], "pid": True, "offset": None, "uuid": None, "seed": 0, "holes": [], "kind": "hatpro"}
        for n in range(1, 5 if thorough else 4):
            for flags in itertools.product(letters, repeat=n):
                for other in (0, 2):
                    out.append(base | {"n": n, "flags": list(flags), "other": [other] * n})
        good = {"n": 3, "flags": [0, 32, 0], "other": [2, 2, 2]}
        for offset, links, pid, u, holes in itertools.product((None, (0.01, -0.02), (None, 0.5), (0.25, None), (0.0, 0.0)), [*LINKS, LINKS[1][::-1], SAME], (True, False), (None, "text", "object"), ([], [1])):
            if product == "multi" and offset is not None:
                continue
            out.append(base | good | {"offset": offset, "links": links, "pid": pid, "uuid": u, "holes": holes, "seed": len(links)})
        for kind, chain, pid in itertools.product(MODELS, ("plain", "lidar"), (True, False)):
            out.append(base | good | {"kind": kind, "chain": chain, "pid": pid})
        out += [base | good | {"broken": i} for i in range(3)]
        for kind in PRODUCTS[product]:
            if kind != "2I06":
                out.append(base | good | {"missing": kind})
    return out


def run(ctx):
    ctx.assume("the binary files have been read, and the retrievals computed, by mwrpy; the site has a name, coordinates and coefficients")
    ctx.explore("level 1c", run_l1c, cases_l1c(ctx.thorough), bound="every number of flagged values of 1, 3, 5 (10) profiles; 7 time series x dates x flags; 3 instruments x infrared x positions x lidar; missing values and positions; coefficients")
    ctx.explore("level 2", run_l2, cases_l2(ctx.thorough), bound="3 products x every series of 1-3 (4) flags of 4 kinds; offsets x coefficients x identifiers x missing values; from level 1c files of this package; every missing retrieval")
