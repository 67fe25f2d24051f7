"""Raw lidar files from plain descriptions, and an independent reference of the noise screening."""

from __future__ import annotations

import binascii
import datetime
import math

import numpy as np

from . import ncio

UTC = datetime.timezone.utc
TEXT = ("cl31", "cl51", "ct25k", "cs135")
NETCDF = ("chm15k", "chx", "cl61d", "da10")


def when(t: float, day: datetime.date) -> datetime.datetime:
    return datetime.datetime(day.year, day.month, day.day) + datetime.timedelta(seconds=t)


def hexs(counts, n):
    return "".join(format(c & ((1 << 4 * n) - 1), f"0{n}x") for c in counts)


def crc(b: bytes) -> int:
    return binascii.crc_hqx(b, 0xFFFF) ^ 0xFFFF


def cl_message(p, o) -> bytes:
    """p: counts, tilt, subclass"""
    sub = "6" if len(p["counts"]) >= 1540 else "1"
    no = o.get("msg", "2")
    l1 = f"CL0200{no}{sub}"
    l2 = "00 ///// ///// ///// 000000000080"
    w = 40 if sub == "6" else 35
    l3 = ("  2 261  0 ///  0 ///  0 ///  0 ///").rjust(w)
    l4 = f"{p.get('scale', 100):05d} {o.get('res', 10):02d} {len(p['counts']):04d} 098 +24 100 {p['tilt']:+03d} 0003 L0016HN15 002"
    l4 = l4.replace("+", "+") if p["tilt"] < 0 else l4.replace(f" {p['tilt']:+03d} ", f" {p['tilt']:02d} ")
    l4 = l4[:47].ljust(47)
    l5 = hexs(p["counts"], 5)
    lines = [l1 + "\x02", l2, *([l3] if no == "2" else []), l4, l5]
    body = ("\r\n".join(lines) + "\r\n\x03").encode()
    c = crc(body) ^ (1 if p.get("bad") else 0)
    eol = "\r\n" if o.get("crlf") else "\n"
    return ("\x01" + eol.join([*lines, f"\x03{c:04x}\x04"]) + eol).encode()


def cs_message(p, o) -> bytes:
    no = o.get("msg", "002")
    l1 = f"CS0007{no}"
    l2 = "1W 097 01773 ///// ///// ///// 80c000000000"
    if len(l2) != 43:
        raise AssertionError
    l3 = ("1 0766  0 ////  0 ////  0 ////  0 ////").rjust(40)
    l4 = f"{p.get('scale', 100):05d} {o.get('res', 5):02d} {len(p['counts']):04d} 100 +39 {p['tilt']:02d} 0030 0020 30 000"
    l5 = hexs(p["counts"], 5)
    lines = [l1 + "\x02", l2, *([l3] if no == "004" else []), l4, l5]
    body = ("\r\n".join(lines) + "\r\n\x03").encode()
    c = crc(body) ^ (1 if p.get("bad") else 0)
    eol = "\r\n" if o.get("crlf", True) else "\n"
    return ("\x01" + eol.join([*lines, f"\x03{c:04x}\x04"]) + eol).encode()


def ct_message(p, o) -> bytes:
    l1 = "CT02073" if o.get("msg") == "7" else "CT02072"
    l2 = "10 01220 ///// ///// 00000100"
    l3 = f"{p.get('scale', 100):03d} N  99 +22  85  200 {p['tilt']:+3d}    6 LF7HN1 172".ljust(42)[:42]
    c = list(p["counts"])
    rows = []
    for i in range(16):
        rows.append(f"{i * 16:03d}" + hexs(c[i * 16 : i * 16 + 16], 4).upper())
    if p.get("bad"):
        rows[7] = rows[7][:-1]
    eol = "\r\n" if o.get("crlf", True) else "\n"
    return ("\x01" + eol.join([l1 + "\x02", l2, l3, *rows, "\x03"]) + eol).encode()


def write_text(path, inst, profs, o, day):
    out = b""
    if o.get("head"):
        out += b"-Ceilometer Logfile \r\n-File created: 04/03/2021 00:00:00\r\n"
    for p in profs:
        t = when(p["t"], day)
        if inst == "cs135":
            if p.get("style"):
                out += t.strftime("%%%%%% %Y/%m/%d %H:%M:%S %%%%%%").encode() + b"\r\n"
            else:
                out += t.strftime("%Y-%m-%dT%H:%M:%S.%f,").encode()
            out += cs_message(p, o)
        else:
            if p.get("style"):
                out += t.strftime("%Y-%m-%d %H:%M:%S,").encode()
            else:
                out += t.strftime("-%Y-%m-%d %H:%M:%S").encode() + (b"\r\n" if o.get("crlf") else b"\n")
            out += (ct_message if inst == "ct25k" else cl_message)(p, o)
        if p.get("cut"):
            out = out[:-40]
        out += o.get("sep", b"\n")
    with open(path, "wb") as f:
        f.write(out)


def write_nc(path, inst, profs, o, day):
    """p: t, raw (list of float | None), x, p (depolarisation), tilt"""
    n, ng = len(profs), len(profs[0]["raw"])
    rng = o["range"]
    fill = o.get("fill", -999.0)
    if inst in ("chm15k", "chx"):
        base = (day - datetime.date(1904, 1, 1)).days * 86400
        dims = {"time": None, "range": ng}
        tr = ["time", "range"]
        v = {
            "time": {"dims": ["time"], "dtype": "f8", "data": [base + p["t"] for p in profs], "attrs": {"units": "seconds since 1904-01-01 00:00:00.000 00:00"}},
            "range": {"dims": ["range"], "dtype": "f4", "data": rng},
            o.get("key", "beta_raw"): {"dims": tr, "dtype": "f4", "data": [p["raw"] for p in profs], "fill": fill},
            "stddev": {"dims": ["time"], "dtype": "f4", "data": [p.get("std", 1.0) for p in profs]},
            o.get("nn", "nn1"): {"dims": ["time"], "dtype": "i2", "data": [p.get("nn", 3685) for p in profs]},
        }
        if o.get("tilt", "time") == "time":
            v["zenith"] = {"dims": ["time"], "dtype": "f4", "data": [p["tilt"] for p in profs]}
        elif o["tilt"] == "scalar":
            v["zenith"] = {"dtype": "f4", "data": profs[0]["tilt"]}
        sv = o.get("version", "17.05.1 2.13 1.040 0")
        attrs = {"title": "CHM15k Nimbus", "software_version": np.int32(sv) if isinstance(sv, int) else sv}
        serial = "CHX080082" if inst == "chx" else "CHM170137"
        if o.get("serial", "device_name"):
            attrs[o.get("serial", "device_name")] = serial
        fmt = o.get("format", "NETCDF3_CLASSIC")
    else:
        base = (day - datetime.date(1970, 1, 1)).days * 86400
        d0 = "profile" if inst == "cl61d" else "time"
        dims = {d0: None, "range": ng, **({"module": 2} if inst == "da10" else {})}
        tr = [d0, "range"]
        v = {
            "time": {"dims": [d0], "dtype": "f8", "data": [base + p["t"] for p in profs], "attrs": {"units": "seconds since 1970-01-01 00:00:00.000"}},
            "range": {"dims": ["range"], "dtype": "f8", "data": rng},
            "beta_att": {"dims": tr, "dtype": "f4", "data": [p["raw"] for p in profs], "fill": fill},
        }
        if inst == "cl61d":
            v["x_pol"] = {"dims": tr, "dtype": "f4", "data": [p["x"] for p in profs], "fill": fill}
            v["p_pol"] = {"dims": tr, "dtype": "f4", "data": [p["p"] for p in profs], "fill": fill}
            if o.get("tilt") == "time":
                v["tilt_angle"] = {"dims": [d0], "dtype": "f4", "data": [p["tilt"] for p in profs]}
        elif o.get("tilt", "time") == "time":
            v["tilt_angle"] = {"dims": [d0, "module"], "dtype": "f4", "data": [[p["tilt"], p["tilt"]] for p in profs]}
        attrs = {"title": "CL61-D, Profiling Ceilometer, rev A" if inst == "cl61d" else "Vaisala DIAL Atmospheric Profiler DA10"}
        if o.get("serial", True):
            attrs["instrument_serial_number"] = "V4610983"
        fmt = "NETCDF4"
    ncio.write(path, {"format": fmt, "dims": dims, "vars": v, "attrs": attrs})


# Reference of the noise screening -----------------------------------------------------

EPS = 2e-5


class TooClose(Exception):
    """The scene is so close to a limit that rounding decides."""



class Grid:
    """Present / absent / undecided values."""

    def __init__(self, val, keep, unsure):
        self.val, self.keep, self.unsure = val, keep, unsure


def reflect(i, n):
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def smooth1(a, sigma, axis):
    r = int(4.0 * sigma + 0.5)
    if r == 0:
        return a.copy()
    w = [math.exp(-0.5 * (k / sigma) ** 2) for k in range(-r, r + 1)]
    s = sum(w)
    n = a.shape[axis]
    out = np.zeros_like(a)
    for k, wk in zip(range(-r, r + 1), w):
        idx = [reflect(i + k, n) for i in range(n)]
        out += (wk / s) * np.take(a, idx, axis=axis)
    return out


def median(x):
    x = sorted(x)
    n = len(x)
    return x[n // 2] if n % 2 else (x[n // 2 - 1] + x[n // 2]) / 2


def screen(beta, raw, rng, noise_min, n_neg, snr_limit, altitude_limit, factor):
    """One pass of the documented screening on an array of profiles (nan = missing).

    beta: values to be screened, raw: raw values (decide what is fog), rng in metres; values below altitude_limit
    are taken as range corrected, and get the extra factor in their signal-to-noise ratio.
    """
    nt, ng = beta.shape
    keep = ~np.isnan(beta)
    unsure = np.zeros((nt, ng), bool)
    ntop = round(ng * 0.1)
    for t in range(nt):
        if not keep[t].any():
            continue
        x = [beta[t, j] / (rng[j] / 1000) ** 2 if rng[j] < altitude_limit else beta[t, j] for j in range(ng)]
        noise = max(math.sqrt(variance(x[-ntop:])), noise_min)
        # too many negatives in a row: weak values above are not to be trusted
        run = 0
        trusted = True
        for j in range(5, min(100, ng)):
            run = run + 1 if x[j] < 0 else 0
            if run > n_neg:
                trusted = False
                for k in range(j, ng):
                    if x[k] < 8e-6:
                        keep[t, k] = False
                    unsure[t, k] |= abs(x[k] - 8e-6) < EPS * 8e-6
                break
        # fog
        total = sum(abs(y) for y in raw[t, :20] if y == y)
        var = variance(raw[t, -ntop:])
        if abs(total - 1e-3) < 1e-5 or abs(var - 1e-15) < 1e-17:
            raise TooClose
        fog = total > 1e-3 or var < 1e-15
        if fog:
            alive = [j for j in range(ng) if keep[t, j]]
            peak = max(alive, key=lambda j: (x[j], -j)) if alive else 0
            for k in range(peak, ng):
                if x[k] < 2e-6:
                    keep[t, k] = False
                unsure[t, k] |= abs(x[k] - 2e-6) < EPS * 2e-6
        if fog or not trusted:
            noise = 1e-12
        for j in range(ng):
            snr = x[j] / noise * (factor if rng[j] < altitude_limit else 1)
            if snr < snr_limit:
                keep[t, j] = False
            unsure[t, j] |= abs(snr - snr_limit) < EPS * max(snr_limit, abs(snr))
    return keep, unsure


def variance(x):
    x = [y for y in x if y == y]
    m = sum(x) / len(x)
    return sum((y - m) ** 2 for y in x) / len(x)


def screened(raw, hours, rng, model, range_corrected, old_chm=False):
    """(beta, beta_smooth) as Grids."""
    limits = {"cl31": (3.1e-8, 1.1e-8), "cl51": (3.1e-8, 1.1e-8)}.get(model, (1e-9, 4e-9))
    n_neg = 20 if model == "cl31" or old_chm else 5
    alt = 1e12
    if not range_corrected and model in ("cl31", "cl51"):
        alt = 2400.0
    factor = 1 if range_corrected else 6
    keep, unsure = screen(raw, raw, rng, limits[0], n_neg, 5, alt, factor)
    cloud = keep & (raw > 1e-6)
    for where in (unsure & (raw > 1e-6), keep & (abs(raw - 1e-6) < EPS * 1e-6)):
        if where.any():
            raise TooClose
    s_t = 1 / (median([b - a for a, b in zip(hours, hours[1:])]) * 60)
    s_z = 10 / median([b - a for a, b in zip(rng, rng[1:])])
    missing = np.isnan(raw)
    a = np.where(cloud, 1e-6, np.where(missing, 0, raw))
    a = smooth1(smooth1(a, s_t, 0), s_z, 1)
    if missing.any():
        w = smooth1(smooth1((~missing).astype(float), s_t, 0), s_z, 1)
        a = np.where(missing, np.nan, a / np.where(missing, 1, w))
    a = np.where(cloud, raw, a)
    keep_s, unsure_s = screen(a, raw, rng, limits[1], n_neg, 5, alt, factor)
    smooth = Grid(a, keep_s, unsure_s)
    if model in ("cl61d", "chm15k", "chx", "cl51", "cl31", "da10") and range_corrected:
        return Grid(raw, keep_s & (raw > 0), unsure_s), smooth
    return Grid(raw, keep, unsure), smooth


def sunbeam(beta: Grid, rng):
    """Profiles dominated by noise from the sun: data in at least 15 of 20 layers above 10 km."""
    high = [j for j, r in enumerate(rng) if r > 10000]
    size = len(high) // 20
    out = []
    for t in range(beta.val.shape[0]):
        n = 0
        for b in range(20):
            js = high[b * size : (b + 1) * size]
            n += any(beta.keep[t, j] for j in js)
            if any(beta.unsure[t, j] for j in js):
                n += 0.001
        out.append(n)
    return out
