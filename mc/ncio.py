"""Tiny netCDF files from plain Python descriptions, and back."""

from __future__ import annotations

import hashlib
import os
from typing import Any

import netCDF4
import numpy as np
from numpy import ma


def to_ma(data: Any, dtype: str = "f8") -> ma.MaskedArray:
    """Nested lists with None for missing values -> masked array."""
    if isinstance(data, np.ndarray):
        return ma.array(data, dtype=dtype)
    arr = np.array(data, dtype=object)
    mask = np.vectorize(lambda x: x is None, otypes=[bool])(arr) if arr.size else np.zeros(
        arr.shape, bool
    )
    fill = np.where(mask, 0, arr).astype(dtype) if arr.size else arr.astype(dtype)
    return ma.array(fill, mask=mask)


def write(path: str, spec: dict) -> str:
    with netCDF4.Dataset(path, "w", format=spec.get("format", "NETCDF4_CLASSIC")) as nc:
        for name, size in spec["dims"].items():
            nc.createDimension(name, size)
        for name, v in spec["vars"].items():
            var = nc.createVariable(
                name,
                v.get("dtype", "f8"),
                tuple(v.get("dims", ())),
                fill_value=v.get("fill"),
                fletcher32=bool(v.get("checksum")),
            )
            attrs = v.get("attrs", {})
            for k in ("scale_factor", "add_offset"):
                if k in attrs:
                    setattr(var, k, attrs[k])
            data = v["data"]
            if isinstance(data, np.ndarray):
                var[:] = data
            elif "scale_factor" in attrs or "add_offset" in attrs:
                var[:] = to_ma(data, "f8")
            else:
                var[:] = to_ma(data, v.get("dtype", "f8"))
            for k, val in attrs.items():
                if k not in ("scale_factor", "add_offset"):
                    setattr(var, k, val)
        for k, val in spec.get("attrs", {}).items():
            setattr(nc, k, val)
    return path


def spoil(path, spec, name):
    """Damages the stored values of a variable; its checksum tells so on reading."""
    data = to_ma(spec["vars"][name]["data"], spec["vars"][name].get("dtype", "f8"))
    raw = np.ascontiguousarray(ma.filled(data, spec["vars"][name].get("fill", 0))[-1:]).tobytes()
    with open(path, "rb") as f:
        content = f.read()
    assert content.count(raw) == 1 or name == "range", (name, content.count(raw))
    i = content.index(raw) + len(raw) - 1
    with open(path, "wb") as f:
        f.write(content[:i] + bytes([content[i] ^ 0x55]) + content[i + 1 :])


def listify(arr: Any) -> Any:
    """Masked array -> nested lists with None for missing (NaN kept as 'nan')."""
    arr = ma.array(arr)
    if arr.ndim == 0:
        if ma.getmaskarray(arr).all():
            return None
        x = arr.item()
        return "nan" if isinstance(x, float) and x != x else x
    return [listify(arr[i]) for i in range(arr.shape[0])]


def read(path: str) -> dict:
    """Whole file -> dict of plain values (used for state hashing and comparison)."""
    with netCDF4.Dataset(path) as nc:
        return {
            "dims": {k: len(d) for k, d in nc.dimensions.items()},
            "vars": {
                k: {
                    "dims": list(v.dimensions),
                    "data": listify(v[:]),
                    "attrs": {
                        a: _attr(v.getncattr(a)) for a in v.ncattrs() if a != "_FillValue"
                    },
                }
                for k, v in nc.variables.items()
            },
            "attrs": {a: _attr(nc.getncattr(a)) for a in nc.ncattrs()},
        }


def _attr(v: Any) -> Any:
    if isinstance(v, np.ndarray):
        return [_attr(x) for x in v.tolist()]
    if isinstance(v, np.generic):
        return v.item()
    return v


def arrays(path: str, names: list[str] | None = None) -> dict[str, ma.MaskedArray]:
    with netCDF4.Dataset(path) as nc:
        return {
            k: ma.array(v[:])
            for k, v in nc.variables.items()
            if names is None or k in names
        }


def filehash(path: str) -> str:
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def same(a: Any, b: Any, tol: float = 0.0) -> bool:
    """Equality of nested lists with None = missing."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    if a == b:
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-30)


def open_fds() -> set[str]:
    out = set()
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        out.add(t)
    return out
