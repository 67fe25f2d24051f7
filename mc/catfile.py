"""Synthetic categorize files for the product checks."""

from __future__ import annotations

import datetime

import netCDF4
import numpy as np
from numpy import ma

DAY = datetime.date(2020, 3, 7)
UUID = "11111111-2222-4333-8444-555555555555"


def write(path: str, time, height, fields: dict, *, altitude=100.0, attrs=None,
          model_time=None, model_height=None, drop=()) -> str:
    """`fields`: name -> array; 0-d, (time,), (height,), (time, height) or model grid."""
    time, height = np.asarray(time, float), np.asarray(height, float)
    nt, nh = len(time), len(height)
    mt = np.asarray(model_time if model_time is not None else [0.0, 24.0], float)
    mh = np.asarray(model_height if model_height is not None else [0.0, 20000.0], float)
    base = {
        "time": (time, ("time",), "hours since 2020-03-07 00:00:00 +00:00"),
        "height": (height, ("height",), "m"),
        "altitude": (np.array(altitude), (), "m"),
        "latitude": (np.array(60.0), (), "degree_north"),
        "longitude": (np.array(25.0), (), "degree_east"),
        "model_time": (mt, ("model_time",), "hours since 2020-03-07 00:00:00 +00:00"),
        "model_height": (mh, ("model_height",), "m"),
    }
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        for n, s in (("time", nt), ("height", nh), ("model_time", len(mt)), ("model_height", len(mh))):
            nc.createDimension(n, s)
        for k, (a, d, u) in base.items():
            if k in drop:
                continue
            v = nc.createVariable(k, "f8", d)
            v[:] = a
            v.units = u
        for k, a in fields.items():
            if k in drop:
                continue
            dims = None
            if isinstance(a, tuple):
                a, dims = a
            a = ma.array(a) if not isinstance(a, ma.MaskedArray) else a
            if dims is None:
                if a.ndim == 0:
                    dims = ()
                elif k in ("temperature", "pressure", "q"):
                    dims = ("model_time", "model_height")
                elif a.ndim == 2:
                    dims = ("time", "height")
                elif k in ("Z_sensitivity",):
                    dims = ("height",)
                else:
                    dims = ("time",)
            kind = "i4" if a.dtype.kind in "iub" else "f8"
            fill = netCDF4.default_fillvals[kind] if k not in ("category_bits", "quality_bits") else None
            v = nc.createVariable(k, kind, dims, fill_value=fill)
            v[:] = a.astype(kind)
        nc.year, nc.month, nc.day = "2020", "03", "07"
        nc.location = "Testville"
        nc.file_uuid = UUID
        nc.cloudnet_file_type = "categorize"
        nc.history = "2020-03-08 01:02:03 +00:00 - categorize file created"
        nc.source = "Radar X\nLidar Y"
        for k, val in (attrs or {}).items():
            setattr(nc, k, val)
    return path


BITS = ("droplet", "falling", "freezing", "melting", "aerosol", "insect")
QBITS = (
    "radar", "lidar", "clutter", "molecular", "att_liquid", "cor_liquid",
    "att_rain", "cor_rain", "att_melting", "cor_melting",
)


def bit(word, names, name):
    return (np.asarray(word) >> names.index(name)) & 1 == 1


def load(path, names=None):
    with netCDF4.Dataset(path) as nc:
        return {k: ma.array(v[:]) for k, v in nc.variables.items() if names is None or k in names}
