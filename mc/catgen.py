"""Builds radar / lidar / model / mwr / disdrometer files and runs the real categorize."""

from __future__ import annotations

import netCDF4
import numpy as np
from numpy import ma

DATE = ("2020", "03", "07")
EPOCH = "hours since 2020-03-07 00:00:00 +00:00"
GRID = (np.arange(2880) + 0.5) / 120.0
UU = {
    "radar": "00000000-0000-4000-8000-000000000001",
    "lidar": "00000000-0000-4000-8000-000000000002",
    "model": "00000000-0000-4000-8000-000000000003",
    "mwr": "00000000-0000-4000-8000-000000000004",
    "disdrometer": "00000000-0000-4000-8000-000000000005",
}
SOURCE = {
    "radar": "METEK MIRA-35",
    "lidar": "Vaisala CL61d",
    "model": "ECMWF Integrated Forecast System",
    "mwr": "RPG-Radiometer Physics HATPRO",
    "disdrometer": "OTT HydroMet Parsivel2",
}
DEFAULT_DIMS = {1: ("time",), 2: ("time", "range")}


def write(path, kind, dims, variables, attrs=None):
    """variables: name -> (array, dims, units)."""
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        for n, s in dims.items():
            nc.createDimension(n, s)
        for k, (a, d, u) in variables.items():
            a = ma.asarray(a)
            code = "i4" if a.dtype.kind in "iub" else "f8"
            v = nc.createVariable(k, code, d, fill_value=netCDF4.default_fillvals[code])
            v[:] = a
            if u is not None:
                v.units = u
        nc.year, nc.month, nc.day = DATE
        nc.location = "Testville"
        nc.file_uuid = UU[kind]
        nc.cloudnet_file_type = kind
        nc.history = f"2020-03-08 01:02:03 +00:00 - {kind} file created"
        if kind in SOURCE:
            nc.source = SOURCE[kind]
        for k, v in (attrs or {}).items():
            if v is None:
                nc.delncattr(k)
            else:
                setattr(nc, k, v)
    return path


def radar(path, time, rng, fields, *, altitude=100.0, freq=35.5, nyq=10.0, attrs=None, extra=None):
    v = {
        "time": (time, ("time",), EPOCH),
        "range": (rng, ("range",), "m"),
        "altitude": (np.array(altitude), (), "m"),
        "latitude": (np.array(60.5), (), "degree_north"),
        "longitude": (np.array(25.25), (), "degree_east"),
        "radar_frequency": (np.array(freq), (), "GHz"),
        "nyquist_velocity": (np.array(nyq), (), "m s-1"),
    }
    units = {"Zh": "dBZ", "v": "m s-1", "width": "m s-1", "ldr": "dB", "sldr": "dB",
             "rainfall_rate": "m s-1"}
    for k, a in fields.items():
        a = ma.asarray(a)
        v[k] = (a, ("time", "range")[: a.ndim], units.get(k))
    v.update(extra or {})
    return write(path, "radar", {"time": len(time), "range": len(rng)}, v, attrs)


def lidar(path, time, rng, beta, *, altitude=100.0, attrs=None):
    return write(
        path, "lidar", {"time": len(time), "range": len(rng)},
        {
            "time": (time, ("time",), EPOCH),
            "range": (rng, ("range",), "m"),
            "altitude": (np.array(altitude), (), "m"),
            "wavelength": (np.array(910.55), (), "nm"),
            "beta": (beta, ("time", "range"), "sr-1 m-1"),
        }, attrs)


def model(path, time, height, fields, *, attrs=None, extra=None):
    """height: (level,) or (time, level), above the model surface."""
    height = np.asarray(height, float)
    if height.ndim == 1:
        height = np.tile(height, (len(time), 1))
    v = {
        "time": (time, ("time",), EPOCH),
        "height": (height, ("time", "level"), "m"),
    }
    units = {"temperature": "K", "pressure": "Pa", "q": "1", "rh": "1", "uwind": "m s-1", "vwind": "m s-1"}
    for k, u in units.items():
        v[k] = (fields[k], ("time", "level"), u)
    v.update(extra or {})
    return write(path, "model", {"time": len(time), "level": height.shape[1]}, v, attrs)


def model_fields(temp, height, rh=0.5):
    """Consistent humidity for a (time, level) temperature."""
    import atmoslib

    temp = np.asarray(temp, float)
    height = np.broadcast_to(np.asarray(height, float), temp.shape)
    p = 101325.0 * np.exp(-height / 8000.0)
    e = rh * 611.2 * np.exp(17.62 * (temp - 273.15) / (243.12 + temp - 273.15))
    q = 0.622 * e / (p - 0.378 * e)
    return {"temperature": temp, "pressure": p, "q": q, "rh": np.full(temp.shape, rh),
            "uwind": np.full(temp.shape, 3.0), "vwind": np.full(temp.shape, -2.0)}


def mwr(path, time, lwp, *, flag=None, attrs=None):
    v = {
        "time": (time, ("time",), EPOCH),
        "lwp": (lwp, ("time",), "kg m-2"),
    }
    if flag is not None:
        v["lwp_quality_flag"] = (flag, ("time",), "1")
    return write(path, "mwr", {"time": len(time)}, v, attrs)


def disdrometer(path, time, rate, n, wawa=None, *, attrs=None):
    v = {
        "time": (time, ("time",), EPOCH),
        "rainfall_rate": (rate, ("time",), "m s-1"),
        "n_particles": (n, ("time",), "1"),
    }
    if wawa is not None:
        v["synop_WaWa"] = (wawa, ("time",), "1")
    return write(path, "disdrometer", {"time": len(time)}, v, attrs)


def generate(files, out, **kw):
    from cloudnetpy.categorize import generate_categorize

    return generate_categorize(files, out, **kw)


def load(path):
    with netCDF4.Dataset(path) as nc:
        return {k: ma.array(v[:]) for k, v in nc.variables.items()}
