"""C16: observations end up on the common grid without being mixed, moved or invented.

Whole categorize runs; enumerated are sample patterns inside 30 s bins, coverage of instruments,
folding velocity layouts, lidar and model grids, gaps of radiometer and disdrometer.
"""

from __future__ import annotations

import itertools
import os

import atmoslib
import numpy as np
from numpy import ma

from .. import catgen
from ..core import Out, Violation, check

LEVEL = "model_checking"
NAN = np.nan
G = 9.80665
ALT = 100.0


def values(v):
    return ma.filled(ma.asarray(v).astype(float), NAN)


def equal(name, got, want, label="", rtol=1e-5, atol=1e-5):
    g, want = values(got), np.asarray(want, float)
    check(g.shape == want.shape, f"{name} has shape {g.shape}, expected {want.shape}")
    with np.errstate(invalid="ignore"):
        bad = np.argwhere((np.isnan(g) != np.isnan(want)) | (np.abs(g - want) > atol + rtol * np.abs(want)))
    if len(bad):
        k = tuple(int(x) for x in bad[0])
        raise Violation(f"{name}{list(k)} is {g[k]}, expected {want[k]} ({len(bad)} values differ) {label}")


# --- reference gridding --------------------------------------------------------------


def bins_of(t, step=1 / 120):
    return np.floor(np.asarray(t) / step + 1e-9).astype(int)


def stat(x, f):
    """Column-wise over the samples that are there."""
    out = np.full(x.shape[1:], NAN)
    it = np.ndindex(*x.shape[1:]) if x.ndim > 1 else [()]
    for k in it:
        y = x[(slice(None), *k)]
        y = y[~np.isnan(y)]
        if y.size:
            out[k] = f(y)
    return out


def lin_mean(y):
    return 10 * np.log10(np.mean(10 ** (y / 10)))


def grid_radar(t, f, nyq, dealiased, bins):
    """f: field -> (sample, gate); nyq: (sample, gate). Returns gridded fields for the bins."""
    b = bins_of(t)
    out = {}
    for k in bins:
        s = b == k
        row = {}
        for name, a in f.items():
            if name in ("Z", "ldr", "sldr"):
                row[name] = stat(a[s], lin_mean)
            elif name in ("width", "rainfall_rate"):
                row[name] = stat(a[s], np.mean)
        v = f["v"][s]
        sig = stat(v, np.std)
        sig[sig == 0] = NAN
        row["v_sigma"] = sig
        ny = nyq[s].max(axis=0)
        row["nyquist_velocity"] = ny
        if dealiased:
            row["v"] = stat(v, np.mean)
        else:
            ang = v * np.pi / ny
            row["v"] = np.arctan2(stat(np.sin(ang), np.mean), stat(np.cos(ang), np.mean)) * ny / np.pi
        for name, x in row.items():
            out.setdefault(name, []).append(x)
    return {k: np.array(v) for k, v in out.items()}


def single_in_time(a):
    """Pixels without a neighbour in the previous or next profile."""
    has = ~np.isnan(a)
    prev = np.vstack([np.zeros((1, has.shape[1]), bool), has[:-1]])
    nxt = np.vstack([has[1:], np.zeros((1, has.shape[1]), bool)])
    return has & ~prev & ~nxt


def spikes(counts):
    """Profiles (or gates) with far more values than the five before and the five after."""
    out = []
    for i in range(5, len(counts) - 5):
        near = sorted([*counts[i - 5 : i], *counts[i + 1 : i + 6]])
        q1, q3 = near[2] + 0.25 * (near[3] - near[2]), near[6] + 0.75 * (near[7] - near[6])
        if q1 == q3 > 0:
            continue
        if counts[i] > max(q3 + 3 * max(q3 - q1, 1), 20):
            out.append(i)
    return out


def stripes(g):
    """On days with 300 profiles or more, what stands alone in a narrow stripe is an artifact."""
    for name in ("v", "v_sigma", "ldr"):
        if name not in g:
            continue
        has = ~np.isnan(g[name])
        if has.any(axis=1).sum() < 300:
            continue
        for axis in (0, 1):  # profiles, gates
            found = spikes([int(x) for x in has.sum(axis=1 - axis)])
            for target, source in {("v", "Z"), (name, name if name != "v" else "Z")}:
                src = ~np.isnan(g[source]).copy()
                src, dst = (src, g[target]) if axis == 0 else (src.T, g[target].T)
                for i in found:
                    lo = max([k for k in range(i) if k not in found], default=None)
                    hi = min([k for k in range(i + 1, len(src)) if k not in found], default=None)
                    alone = src[i].copy()
                    for k in (lo, hi):
                        if k is not None:
                            alone &= ~src[k]
                    dst[i, alone] = NAN


def finish_radar(g, source):
    g = {k: v.copy() for k, v in g.items()}
    if "rpg" in source.lower() or "basta" in source.lower():
        for k in ("Z", "v", "width", "ldr", "v_sigma"):
            if k in g:
                g[k][single_in_time(g[k])] = NAN
        first = g["v"][:, 0]
        first[first > 4] = NAN
    stripes(g)
    bad = np.isnan(g["Z"]) | np.isnan(g["v"])
    if "width" in g:
        bad |= np.isnan(g["width"])
    for k, a in g.items():
        if a.ndim == 2:
            a[bad] = NAN
    return g


def interp_gap(t, x, tn, limit, nearest=False):
    """Missing ones are passed over unless the closest reading is further than limit minutes."""
    good = ~np.isnan(x)
    if not good.any():
        return np.full(len(tn), NAN)
    t, x = t[good], x[good]
    dist = np.abs(tn[:, None] - t[None, :])
    if nearest:
        y = x[dist.argmin(axis=1)]
    else:
        y = np.interp(tn, t, x)
    y[dist.min(axis=1) > limit / 60] = NAN
    return y


def grid_lidar(t, h, beta, tn, hn):
    good = ~np.isnan(beta).all(axis=1)
    if not good.any():
        return None, np.zeros(len(tn), bool)
    t, beta = t[good], beta[good]
    out = np.full((len(tn), len(hn)), NAN)
    dt = np.abs(tn[:, None] - t[None, :])
    dh = np.abs(hn[:, None] - h[None, :])
    for i in range(len(tn)):
        if tn[i] < t[0] or tn[i] > t[-1] or dt[i].min() > 1 / 60:
            continue
        for j in range(len(hn)):
            if hn[j] < h[0] or hn[j] > h[-1] or dh[j].min() > 100:
                continue
            out[i, j] = beta[dt[i].argmin(), dh[j].argmin()]
    return out, dt.min(axis=1) <= 1 / 60


def line(x, x0, x1, y0, y1):
    return y0 + (y1 - y0) * (x - x0) / (x1 - x0)


def common_height(h, a, mean):
    """(time, level) -> common levels; linear, continued with the slope of the outermost pair."""
    out = np.full(a.shape, NAN)
    for i in range(a.shape[0]):
        ok = ~np.isnan(a[i])
        if ok.sum() < 2:
            continue
        x, y = h[i][ok], a[i][ok]
        for j, m in enumerate(mean):
            k = min(max(int(np.searchsorted(x, m)) - 1, 0), len(x) - 2)
            out[i, j] = line(m, x[k], x[k + 1], y[k], y[k + 1])
    return out


def dense_model(mt, mh, a, tn, hn, diag):
    """Linear on triangles of the grid of available profiles; two ways to cut a cell."""
    good = ~np.isnan(a).any(axis=1)
    gt, ga = mt[good], a[good]
    out = np.full((len(tn), len(hn)), NAN)
    for i, t in enumerate(tn):
        if len(gt) < 2 or t < gt[0] or t > gt[-1]:
            continue
        # closer to a missing profile than to an available one
        w = np.clip(np.searchsorted(mt, t) - 1, 0, len(mt) - 2)
        f = (t - mt[w]) / (mt[w + 1] - mt[w])
        if (1 - f) * (not good[w]) + f * (not good[w + 1]) >= 0.5:
            continue
        k = int(np.clip(np.searchsorted(gt, t) - 1, 0, len(gt) - 2))
        u = (t - gt[k]) / (gt[k + 1] - gt[k])
        for j, h in enumerate(hn):
            if h < mh[0] or h > mh[-1]:
                continue
            m = int(np.clip(np.searchsorted(mh, h) - 1, 0, len(mh) - 2))
            s = (h - mh[m]) / (mh[m + 1] - mh[m])
            p00, p01, p10, p11 = ga[k, m], ga[k, m + 1], ga[k + 1, m], ga[k + 1, m + 1]
            if diag == 0:
                y = p00 + u * (p10 - p00) + s * (p11 - p10) if u >= s else p00 + s * (p01 - p00) + u * (p11 - p01)
            else:
                y = p00 + u * (p10 - p00) + s * (p01 - p00) if u + s <= 1 else p11 + (1 - u) * (p01 - p11) + (1 - s) * (p10 - p11)
            out[i, j] = y
        row = out[i]
        v = np.where(~np.isnan(row))[0]
        if len(v) >= 2:
            for j in range(len(hn)):
                if j < v[0]:
                    row[j] = line(hn[j], hn[v[0]], hn[v[1]], row[v[0]], row[v[1]])
                elif j > v[-1]:
                    row[j] = line(hn[j], hn[v[-2]], hn[v[-1]], row[v[-2]], row[v[-1]])
    return out


# --- one run --------------------------------------------------------------------------


def nyquist(kind, nt, nh):
    """Returns (variables, expanded (time, gate), radar attributes)."""
    td, hd = ("time",), ("time", "range")
    if kind == "scalar":
        return {"nyquist_velocity": (np.array(10.0), (), "m s-1")}, np.full((nt, nh), 10.0), {}
    if kind == "full":
        a = 8.0 + (np.arange(nt)[:, None] % 3) + 0.01 * np.arange(nh)[None, :]
        return {"nyquist_velocity": (a, hd, "m s-1")}, a, {}
    if kind == "prf":
        prf = 4 * 35.5e9 * 9.0 / 299792458.0
        return {"prf": (np.array([prf]), ("one",), "Hz")}, np.full((nt, nh), 9.0), {"one": 1}
    seg = np.array([10.0, 7.0, 5.0])
    first = 1 if kind.endswith("1") else 0
    starts = np.array([0, 4, nh // 2])
    v = {}
    if kind.startswith("seg2d"):  # chirps differ between profiles
        st = np.array([starts if k % 2 else starts + [0, 1, 3] for k in range(nt)])
        v["chirp_start_indices"] = (st + first, ("time", "seg"), "1")
    else:
        st = np.tile(starts, (nt, 1))
        v["chirp_start_indices"] = (starts + first, ("seg",), "1")
    if kind.startswith("segt"):
        a = seg[None, :] + (np.arange(nt)[:, None] % 2)
        v["nyquist_velocity"] = (a, ("time", "seg"), "m s-1")
    else:
        a = np.tile(seg, (nt, 1))
        v["nyquist_velocity"] = (seg, ("seg",), "m s-1")
    full = np.zeros((nt, nh))
    for i in range(nt):
        edges = [*st[i], nh]
        for k in range(3):
            full[i, edges[k] : edges[k + 1]] = a[i, k]
    return v, full, {"seg": 3}


class Run:
    """Defaults for everything a case does not care about."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.rng = 60.0 * np.arange(1, 13)
        self.source = catgen.SOURCE["radar"]
        self.nyq = "scalar"
        self.dealias = None
        self.fields = ("Z", "v", "width", "ldr")
        self.alts = None
        self.mwr = self.dis = None
        self.model = None
        self.lidar = None
        self.options = None

    def write(self):
        nt, nh = len(self.rt), len(self.rng)
        ny, self.nyq_full, dims = nyquist(self.nyq, nt, nh)
        f = {}
        for k, a in self.radar.items():
            f["Zh" if k == "Z" else k] = ma.masked_invalid(a)
        extra = dict(ny)
        if self.dealias is not None:
            extra["correction_bits"] = (np.full((nt, nh), int(self.dealias)), ("time", "range"), "1")
        if self.alts is not None:
            lat, lon, alt = self.alts
            extra |= {"latitude": (lat, ("time",), "degree_north"), "longitude": (lon, ("time",), "degree_east"),
                      "altitude": (alt, ("time",), "m")}
        p = os.path.join(self.tmp, "radar.nc")
        v = {
            "time": (self.rt, ("time",), catgen.EPOCH), "range": (self.rng, ("range",), "m"),
            "altitude": (np.array(ALT), (), "m"), "latitude": (np.array(60.5), (), "degree_north"),
            "longitude": (np.array(25.25), (), "degree_east"), "radar_frequency": (np.array(35.5), (), "GHz"),
        }
        units = {"Zh": "dBZ", "v": "m s-1", "width": "m s-1", "ldr": "dB", "sldr": "dB", "rainfall_rate": "m s-1"}
        for k, a in f.items():
            v[k] = (a, ("time", "range")[: a.ndim], units[k])
        v |= extra
        catgen.write(p, "radar", {"time": nt, "range": nh, **dims}, v, {"source": self.source})
        files = {"radar": p}
        if self.lidar is None:
            self.lidar = (self.rt, self.rng, np.full((nt, nh), 1e-7), ALT)
        lt, lr, lb, la = self.lidar
        files["lidar"] = catgen.lidar(os.path.join(self.tmp, "lidar.nc"), lt, lr, ma.masked_invalid(lb), altitude=la)
        if self.model is None:
            h = np.array([0.0, 400.0, 900.0, 9000.0])
            self.model = ([0.0, 12.0, 24.0], np.tile(h, (3, 1)), np.tile(280.0 - 0.0065 * h, (3, 1)), None)
        mt, mh, T, sfc = self.model
        mt, mh = np.asarray(mt, float), np.asarray(mh, float)
        fl = catgen.model_fields(np.where(np.isnan(T), 270.0, T), mh, rh=0.7)
        fl["uwind"] = 3 + 0.002 * mh + 0.1 * mt[:, None]
        fl = {k: ma.array(np.where(np.isnan(T), 9e30, a), mask=np.isnan(T)) for k, a in fl.items()}
        extra, surface = {}, np.full((len(mt), 1), np.mean(self.alts[2]) if self.alts is not None else ALT)
        if sfc == "height":
            extra["sfc_height"] = (40.0 + 0 * mt, ("time",), "m")
            surface = np.full((len(mt), 1), 40.0)
        elif sfc == "geopotential":
            g = G * (150.0 + 2.0 * np.arange(len(mt)))
            extra["sfc_geopotential"] = (g, ("time",), "m2 s-2")
            surface = (g / G)[:, None]
        files["model"] = catgen.model(os.path.join(self.tmp, "20200307_ecmwf.nc"), mt, mh, fl, extra=extra)
        self.mfields, self.mheights, self.mtime = {k: values(a) for k, a in fl.items()}, mh + surface, mt
        if self.mwr is not None:
            t, lwp, flag = self.mwr
            files["mwr"] = catgen.mwr(os.path.join(self.tmp, "mwr.nc"), t, ma.masked_invalid(lwp), flag=flag)
        if self.dis is not None:
            t, rate = self.dis
            files["disdrometer"] = catgen.disdrometer(
                os.path.join(self.tmp, "dis.nc"), t, ma.masked_invalid(rate), ma.masked_invalid(rate * 0 + 50.0))
        return files

    def go(self, expect_error=False):
        files = self.write()
        out = os.path.join(self.tmp, "categorize.nc")
        alt = float(np.mean(self.alts[2])) if self.alts is not None else ALT
        h = self.rng + alt
        tn = catgen.GRID
        # which bins survive
        have = np.zeros(2880, bool)
        have[bins_of(self.rt)] = True
        cand = np.where(have)[0]
        lt, lr, lb, la = self.lidar
        beta, near = grid_lidar(np.asarray(lt), lr + la, lb, tn[cand], h)
        mean = self.mheights.mean(axis=0)
        sparse = {k: common_height(self.mheights, a, mean) for k, a in self.mfields.items()}
        dense = [{k: dense_model(self.mtime, mean, sparse[k], tn[cand], h, d) for k in ("temperature", "pressure", "q")}
                 for d in (0, 1)]
        keep = near & ~np.isnan(dense[0]["temperature"]).all(axis=1)
        bins = cand[keep]
        if len(bins) < 2:
            from cloudnetpy.exceptions import ValidTimeStampError

            try:
                catgen.generate(files, out, **({"options": self.options} if self.options else {}))
            except ValidTimeStampError:
                check(not os.path.exists(out), "a file was left although nothing overlaps")
                return None, bins
            raise Violation(f"a file was written although only {len(bins)} profiles are covered by all")
        catgen.generate(files, out, **({"options": self.options} if self.options else {}))
        got = catgen.load(out)
        t = values(got["time"])
        want = tn[bins]
        if len(t) != len(want) or np.abs(t - want).max() > 1e-5:
            gb = set(bins_of(t))
            raise Violation(f"profiles written but not covered by radar, lidar and model: {sorted(gb - set(bins.tolist()))[:5]}, "
                            f"covered but not written: {sorted(set(bins.tolist()) - gb)[:5]}")
        equal("height", got["height"], h, atol=1e-2)
        lab = f"radar {self.source} nyquist {self.nyq}"
        r = grid_radar(self.rt, self.radar, self.nyq_full, bool(self.dealias), bins)
        r = finish_radar(r, self.source)
        meas = values(got["Z"]) - sum(np.nan_to_num(values(got[f"radar_{k}_atten"])) for k in ("gas", "liquid", "rain", "melting"))
        equal("Z before correction", meas, r["Z"], lab, atol=2e-4)
        for k in ("v_sigma", "width", "ldr", "sldr", "nyquist_velocity", "rainfall_rate"):
            if k in r and not (k == "rainfall_rate" and self.dis is not None):
                tol = 1e-10 if k == "rainfall_rate" else 1e-4
                equal(k, got[k], r[k], lab, atol=tol)
        # a velocity is known up to the folding interval
        v = values(got["v"])
        dv = v - r["v"]
        if not self.dealias:
            ny = np.where(np.isnan(r["v"]), 1, r["nyquist_velocity"])
            dv = dv - 2 * ny * np.round(dv / (2 * ny))
            check(not (np.abs(v) > ny + 1e-4).any(), "velocity outside the folding interval")
        equal("v (modulo folding)", r["v"] * 0 + dv, r["v"] * 0, lab, atol=1e-4)
        check((np.isnan(v) == np.isnan(r["v"])).all(), "velocity missing or invented")
        equal("beta", got["beta"], beta[keep], "lidar", rtol=1e-5, atol=0)
        tw = []
        for d in dense:
            a = [d[k][keep] for k in ("temperature", "pressure", "q")]
            tw.append(atmoslib.wet_bulb_temperature(*a) + (self.options or {}).get("temperature_offset", 0))
        lo, hi = np.minimum(*tw), np.maximum(*tw)
        g = values(got["Tw"])
        bad = np.argwhere(~((g >= lo - 2e-3) & (g <= hi + 2e-3)))
        if len(bad):
            i, j = bad[0]
            raise Violation(f"Tw at {want[i]:.4f} h {h[j]} m is {g[i, j]}, expected {lo[i, j]}..{hi[i, j]}")
        # two-way gas attenuation of the layers below
        vp = atmoslib.vapor_pressure(self.mfields["pressure"], self.mfields["q"])
        spec = common_height(self.mheights, atmoslib.gas_specific_attenuation(
            self.mfields["temperature"], self.mfields["pressure"], vp, 35.5), mean)
        dz = np.diff(self.rng, prepend=0) / 1000
        mid = h - np.diff(h, prepend=alt) / 2
        gas = [dense_model(self.mtime, mean, spec, tn[bins], mid, d) for d in (0, 1)]
        lo = np.cumsum(2 * np.minimum(*gas) * dz, axis=1)
        hi = np.cumsum(2 * np.maximum(*gas) * dz, axis=1)
        g = values(got["radar_gas_atten"])
        bad = np.argwhere(~((g >= lo - 2e-6) & (g <= hi + 2e-6)))
        if len(bad):
            i, j = bad[0]
            raise Violation(f"gas attenuation at {want[i]:.4f} h {h[j]} m is {g[i, j]}, expected {lo[i, j]}..{hi[i, j]}")
        equal("model_time", got["model_time"], self.mtime)
        equal("model_height", got["model_height"], mean, atol=1e-2)
        for k in ("temperature", "pressure", "q", "uwind", "vwind"):
            equal(k, got[k], sparse[k], "model", rtol=2e-6, atol=1e-9)
        if self.mwr is not None:
            mt, lwp, flag = self.mwr
            x = np.where(flag != 0, NAN, lwp) if flag is not None else lwp
            equal("lwp", got["lwp"], interp_gap(mt, x, want, 2), atol=1e-7)
            e = np.sqrt((0.25 * x) ** 2 + 0.02**2)
            equal("lwp_error", got["lwp_error"], interp_gap(mt, e, want, 2), atol=1e-7)
        if self.dis is not None:
            equal("rainfall_rate", got["rainfall_rate"], interp_gap(self.dis[0], self.dis[1], want, 1), atol=1e-12)
        loc = {"latitude": 60.5, "longitude": 25.25, "altitude": ALT}
        for n, k in enumerate(loc):
            if self.alts is None:
                w = np.full(len(want), loc[k])
                equal(k, got[k], w if got[k].ndim else np.array(loc[k]))
            else:
                w = self.alts[n][np.abs(want[:, None] - self.rt[None, :]).argmin(axis=1)]
                equal(k, got[k], w)
        return got, bins


LETTERS = "ABCMP"


def letter(c, nyq):
    """z, v, width, ldr of one sample."""
    return {
        "A": (-30.0, -0.1 * nyq, 0.2, -25.0), "B": (10.0, 0.83 * nyq, 0.8, -10.0), "C": (0.0, -0.95 * nyq, 0.5, NAN),
        "M": (NAN, NAN, NAN, NAN), "P": (5.0, NAN, 0.3, -20.0), "W": (-5.0, 0.5 * nyq, NAN, -15.0),
    }[c]


OFFS = (3 / 3600, 11 / 3600, 26 / 3600)


def radar_bins(case, tmp):
    """Every gate is one word of letters; profiles walk through the words in bins of 0-3 samples."""
    r = Run(tmp)
    words = ["".join(w) for w in itertools.product(case["letters"], repeat=3)]
    if case.get("gates"):
        words = words[: case["gates"]]
    nh = len(words)
    r.rng = 60.0 * np.arange(1, nh + 1)
    r.nyq, r.source, r.dealias = case["nyq"], case["source"], case["dealias"]
    counts = case["counts"]
    t, pos = [], []
    for b, n in enumerate(counts):
        for s in range(n):
            t.append((1000 + b) / 120 + OFFS[(s + b) % 3 if n < 3 else s])
            pos.append((s + b) % 3)
    order = np.argsort(t)
    t, pos = np.array(t)[order], np.array(pos)[order]
    r.rt = t
    full = nyquist(r.nyq, len(t), nh)[1]
    a = np.array([[letter(words[j][p], full[i, j]) for j in range(nh)] for i, p in enumerate(pos)])
    r.radar = {"Z": a[:, :, 0], "v": a[:, :, 1]}
    if case["width"]:
        r.radar["width"] = a[:, :, 2]
    if case["ldr"]:
        r.radar[case["ldr"]] = a[:, :, 3]
    if case.get("rain"):
        r.radar["rainfall_rate"] = np.array([{"z": 0.0, "q": NAN if k % 3 else 0.0, "n": NAN, "r": 1e-6 * (1 + k % 4), "m": NAN if k % 2 else 2e-7}[case["rain"]]
                                             for k in range(len(t))])
    if case.get("moving"):
        k = np.arange(len(t))
        r.alts = (60 + 0.01 * k, 25 - 0.02 * k, 10.0 + (k % 5))
    r.lidar = (np.arange(995, 1005 + len(counts)) / 120 + 0.0041, r.rng, np.full((10 + len(counts), nh), 1e-7), ALT)
    got, bins = r.go()
    return Out(states=[f"{w}{n}" for w in words for n in set(counts)], transitions=len(bins) * nh, traces=nh)


def artifacts(case, tmp):
    """Stripes of artifacts in a long day: through profiles and along gates."""
    r = Run(tmp)
    nb, nh = case["n"], 44
    r.rng = 45.0 * np.arange(1, nh + 1)
    r.source = case["source"]
    k = np.arange(nb)
    bins = 300 + k
    has = np.zeros((nb, nh), bool)
    for i in k:  # cloud: even, ragged, or none in a part
        lo, hi = {"even": (4, 12), "ragged": (4, 9 + (i * 7) % 5), "part": (4, 12) if i < nb // 2 or i % 5 == 0 else (10, 11), "thin": (6, 7), "tall": (4, 24 - (i % 10 in (0, 3, 6)))}[case["base"]]
        has[i, lo:hi] = True
    if case["base"] == "thin":
        has[nb // 3 : nb // 3 + 25] = False
        has[:1, :] = False
    for pos, width, size, low in case["stripes"]:
        if pos >= 0:
            has[pos : pos + width, low : low + size] = True
        else:  # along gates
            has[low : low + size, -pos : -pos + width] = True
    double = (k % 2 == 0) if case["double"] == "odd" else np.full(nb, bool(case["double"]))
    t, row = [], []
    for i in k:
        for off in (3, 17)[: 1 + double[i]]:
            t.append(bins[i] / 120 + off / 3600)
            row.append(i)
    row, t = np.array(row), np.array(t)
    r.rt = t
    m = has[row]
    n = np.arange(len(t))[:, None] + np.arange(nh)[None, :]
    r.radar = {"Z": np.where(m, -20.0 - n % 3, NAN), "v": np.where(m & (n % 5 > 0 if case["gaps"] else True), -1.0 - 0.1 * (n % 2), NAN), "width": np.where(m, 0.3, NAN)}
    if case["ldr"]:
        r.radar["ldr"] = np.where(m & (n % 7 > 0 if case["ldr"] == "holes" else True), -25.0, NAN)
    r.lidar = (np.arange(298, 302 + nb) / 120 + 0.0041, r.rng, np.full((4 + nb, nh), 1e-7), ALT)
    got, got_bins = r.go()
    left = int((~np.isnan(values(got["v"]))).sum())
    return Out(states=[str(sorted(case.items())), f"{left}/{int(has.sum())}"], transitions=nb * nh, traces=len(case["stripes"]))


def artifact_cases(thorough):
    out = []
    n = 320
    kinds = [(w, size, low) for w in (1, 2, 3) for size in (8, 20, 21, 26, 36) for low in (0, 8)]
    edge = [0, 4, 5, 6, n - 7, n - 6, n - 5, n - 1]
    across = [[(e, 1, 30, 14) for e in edge[i::3]] for i in range(3)]
    across += [[(20 + 27 * j, *x) for j, x in enumerate(kinds[i : i + 10])] for i in range(0, len(kinds), 10)]
    across += [[(100, 1, 30, 13), (103, 1, 30, 13), (106, 2, 30, 13)], [(100, 4, 30, 13)], [(100, 5, 30, 13)], [(100, 8, 30, 13)]]
    along = [[(-g, w, size, 40)] for g in (4, 5, 6, 20, 38) for w in (1, 2) for size in (20, 22, 150)]
    along += [[(-20, 1, 100, 40), (-23, 1, 60, 40), (60, 1, 36, 8)]]
    for i, (base, st) in enumerate(itertools.product(("even", "ragged", "part", "thin"), across + along)):
        for j, (double, ldr) in enumerate(itertools.product((0, 1, "odd"), (None, "full", "holes"))):
            if not thorough and (j != i % 9 or i % 5 > 1):
                continue
            out.append({"n": n, "base": base, "stripes": st, "double": double, "ldr": ldr, "gaps": i % 2 + (i // 5) % 2 == 1, "source": catgen.SOURCE["radar"]})
    for gaps in (False, True):  # counts differing by less than one between the quartiles
        st = [(102 + 20 * j, 1, size, 4) for j, size in enumerate((21, 22, 23, 24, 25))]
        out.append({"n": n, "base": "tall", "stripes": st, "double": 0, "ldr": "full", "gaps": gaps, "source": catgen.SOURCE["radar"]})
    for size in (298, 299, 300, 301, 302):
        out.append({"n": size, "base": "ragged", "stripes": [(100, 1, 30, 14), (-20, 1, 100, 140)], "double": 0, "ldr": "full", "gaps": size % 2 == 0, "source": catgen.SOURCE["radar"]})
    return out


def coverage(case, tmp):
    """All ways in which radar and lidar are there or not in windows of five bins."""
    r = Run(tmp)
    t, lt, lab = [], [], []
    b = 200
    for rp, lp in case["windows"]:
        for k in range(5):
            if rp >> k & 1:
                t += [(b + k) / 120 + 9 / 3600]
            if lp >> k & 1:
                lt.append(((b + k) / 120 + 12 / 3600, True))
            elif (rp + lp + k) % 3 == 0:
                lt.append(((b + k) / 120 + 12 / 3600, False))  # profile without any signal
        b += 5 + 6
    if case.get("edges"):
        t = [0.001, *t, 23.9999]
        lt = [(0.0005, True), *lt, (23.999, True)]
    r.rt = np.array(t)
    nt, nh = len(t), len(r.rng)
    r.radar = {"Z": -20.0 + 0.1 * np.arange(nt)[:, None] + np.arange(nh)[None], "v": np.full((nt, nh), -1.0) - 0.001 * np.arange(nt)[:, None],
               "width": np.full((nt, nh), 0.3)}
    lb = np.array([[1e-7 * (1 + k + 0.01 * j) if ok else NAN for j in range(nh)] for k, (_, ok) in enumerate(lt)])
    r.lidar = (np.array([x for x, _ in lt]), r.rng, lb, ALT)
    got, bins = r.go()
    return Out(states=[f"{w}" for w in case["windows"]], transitions=len(case["windows"]) * 10, traces=len(case["windows"]))


def lidar_grid(case, tmp):
    """Lidar on another height grid and at another altitude."""
    r = Run(tmp)
    nb = 24
    r.rt = (np.arange(nb) + 600) / 120 + 7 / 3600
    nh = 24
    r.rng = 60.0 * np.arange(1, nh + 1)
    r.radar = {"Z": np.full((nb, nh), -20.0), "v": np.full((nb, nh), -1.0) - 0.01 * np.arange(nb)[:, None], "width": np.full((nb, nh), 0.3)}
    lr = np.array(case["range"])
    step, shift = case["step"], case["shift"]
    lt = 599 / 120 + np.arange(0, int(nb * 30 / step) + 3) * step / 3600 + shift / 3600
    n = len(lt)
    k = np.arange(n)
    lb = 1e-7 * (1 + k[:, None] + 0.01 * np.arange(len(lr))[None, :])
    pat = case["pattern"]  # missing values
    for i in range(n):
        for j in range(len(lr)):
            if pat >> ((i + 2 * j) % 6) & 1:
                lb[i, j] = NAN
    if case["empty"]:
        lb[:: case["empty"]] = NAN
    r.lidar = (lt, lr, lb, case["alt"])
    got, bins = r.go()
    return Out(states=[f"{case['range'][:2]}{case['alt']}{pat}{step}{shift}{case['empty']}"], transitions=nb * nh)


def model_grid(case, tmp):
    """Model profiles missing, heights changing with time, surface altitude, day edges."""
    r = Run(tmp)
    nb = 48
    k = np.arange(nb)
    r.rt = (k * 60 + 7) / 120 + 7 / 3600  # every half hour over the whole day
    if case["heights"] == "dense":
        r.rng = 45.0 * np.arange(1, 21)
    nh = len(r.rng)
    r.radar = {"Z": np.full((nb, nh), -20.0), "v": np.full((nb, nh), -1.0) - 0.01 * k[:, None], "width": np.full((nb, nh), 0.3)}
    mt = np.array(case["times"], float)
    base = {"low": [10.0, 150.0, 420.0, 1000.0], "high": [200.0, 300.0, 500.0], "dense": np.arange(0, 1500, 120.0) + 3.0}[case["heights"]]
    mh = np.array([np.array(base) * (1 + 0.004 * case["vary"] * i * (i + 1) / 2) for i in range(len(mt))])
    T = 275.0 + 5 * np.sin(mt / 4)[:, None] - 0.006 * mh + 2 * np.sin(mh / 200 + mt[:, None])
    for i in range(len(mt)):
        if case["missing"] >> i & 1:
            T[i] = NAN
    if case.get("level"):  # a level missing in some profiles
        for i in range(len(mt)):
            if i % 2:
                if case["level"] == 2:  # only two levels left
                    T[i, 2:] = NAN
                else:
                    T[i, case["level"] % mh.shape[1]] = NAN
    r.model = (mt, mh, T, case["sfc"])
    if case["offset"]:
        r.options = {"temperature_offset": case["offset"]}
    n_ok = (~np.isnan(T).all(axis=1)).sum()
    if n_ok < 2:
        from cloudnetpy.exceptions import ModelDataError

        files = r.write()
        try:
            catgen.generate(files, os.path.join(tmp, "c.nc"))
        except ModelDataError:
            return Out(states=["nomodel"], transitions=1)
        raise Violation("a file was written although the model has less than two profiles")
    got, bins = r.go()
    return Out(states=[str(sorted(case.items()))], transitions=nb * nh)


def gaps(case, tmp):
    """Radiometer and disdrometer readings around the longest bridged gaps."""
    r = Run(tmp)
    r.rt = (np.arange(int(60 + sum(x for x, _ in case["steps"]) / 30)) + 400) / 120 + 7 / 3600
    nb, nh = len(r.rt), len(r.rng)
    r.radar = {"Z": np.full((nb, nh), -20.0), "v": np.full((nb, nh), -1.0) - 0.001 * np.arange(nb)[:, None], "width": np.full((nb, nh), 0.3)}
    t, x, flag = [], [], []
    now = 400 / 120 + 4 / 3600
    k = 0
    for gap, kind in case["steps"]:
        now += gap / 3600
        t.append(now)
        x.append(NAN if kind == "m" else 0.01 * (1 + k % 7) if kind == "v" else -0.005 if kind == "n" else 0.0)
        flag.append(3 if kind == "f" else 0)
        if kind == "f":
            x[-1] = 5.0
        k += 1
    t, x, flag = np.array(t), np.array(x), np.array(flag)
    if case["which"] == "mwr":
        r.mwr = (t, x, flag if case["flags"] else None)
    else:
        r.dis = (t, np.abs(x) * 1e-5)
    got, bins = r.go()
    return Out(states=[str(case["steps"])], transitions=nb, traces=len(case["steps"]))


def cases(thorough):
    radar = []
    counts_all = [(3, 2, 1, 0, 3, 1, 1, 2), (1, 0, 1, 0, 1, 1, 0, 2), (2, 2, 3, 3, 1, 3, 0, 0, 3), (1, 1, 1, 1), (3, 3, 3, 3, 3, 3)]
    for nyq, source in itertools.product(
            ("scalar", "full", "prf", "seg0", "seg1", "seg2d0", "seg2d1", "segt0"), ("METEK MIRA-35", "RPG-Radiometer Physics RPG-FMCW-94", "BASTA")):
        for counts in counts_all:
            for width, ldr in itertools.product((True, False), ("ldr", "sldr", None)):
                if not thorough and (width and ldr == "sldr" or not width and ldr == "ldr"):
                    continue
                if not thorough and nyq not in ("scalar", "full") and (width or ldr):
                    continue
                radar.append({"letters": "ABCMP" if width is False else "ABMPW", "counts": counts, "nyq": nyq, "source": source,
                              "dealias": None, "width": width, "ldr": ldr, "gates": 60 if nyq not in ("scalar", "full") and not thorough else None})
    for dealias, rain, moving in itertools.product((None, 0, 1), (None, "z", "q", "n", "r", "m"), (False, True)):
        for counts in counts_all:
            radar.append({"letters": "ABM", "counts": counts, "nyq": "scalar", "source": "METEK MIRA-35", "dealias": dealias,
                          "width": True, "ldr": None, "rain": rain, "moving": moving})
    win = [(a, b) for a in range(1, 32) for b in range(32)]
    cov = [{"windows": win[i : i + 62], "edges": e} for i in range(0, len(win), 62) for e in (False, True)]
    cov += [{"windows": [(a, b)], "edges": False} for a in (1, 2, 3, 16, 31) for b in (0, 1, 2, 3, 16, 31)]
    lid = []
    ranges = ([60.0 * k for k in range(1, 25)], [15.0 + 30.0 * k for k in range(60)], [40.0 + 190.0 * k for k in range(8)],
              [50.0, 100.0, 150.0, 420.0, 500.0, 800.0, 1700.0], [400.0 + 50.0 * k for k in range(10)])
    pats = range(64) if thorough else (0, 1, 5, 9, 21, 63, 62, 31)
    for rg, alt, pat, (step, shift), empty in itertools.product(
            ranges, (ALT + 0.3, ALT + 55.0, ALT - 120.0), pats, ((30, 4.2), (7, 1.3), (50, 5.7), (140, 9.1)), (0, 2, 3)):
        if not thorough and (empty and pat not in (0, 21) or step == 50 and alt < ALT or pat in (9, 62) and step > 10):
            continue
        lid.append({"range": rg, "alt": alt, "pattern": pat, "step": step, "shift": shift, "empty": empty})
    mod = []
    for times in ([0, 6, 12, 18, 24], [0, 1, 2, 23, 24], [3, 9, 15, 20]):
        for missing in range(2 ** len(times)):
            for heights, vary, sfc in (("low", 0, None), ("low", 1, "height"), ("dense", 1, "geopotential"), ("high", 0, None)):
                if not thorough and heights == "high" and missing > 5 or not thorough and vary == 0 and heights == "low" and missing % 2:
                    continue
                mod.append({"times": times, "missing": missing, "heights": heights, "vary": vary, "sfc": sfc,
                            "offset": 1.5 if missing % 3 == 1 else 0})
    for lev, heights, vary, times in itertools.product((1, 2, 3, 4, 9), ("low", "dense"), (0, 1, 3), ([0, 6, 12, 18, 24], [0, 8, 24])):
        mod.append({"times": times, "missing": 2 if lev == 9 else 0, "heights": heights, "vary": vary, "sfc": None, "offset": 0, "level": lev})
    gp = []
    steps = [(31.317, "v"), (31.317, "m"), (170.713, "v"), (170.713, "m"), (263.129, "v"), (31.317, "n"), (31.317, "z")]
    depth = 4 if thorough else 3
    seqs = [s for s in itertools.product(steps, repeat=depth)]
    joined = 1 if thorough else 4  # sequences one after another
    for which in ("mwr", "dis"):
        for part in [seqs[i : i + joined] for i in range(0, len(seqs), joined)]:
            st = [x for s in part for x in s]
            gp.append({"which": which, "steps": [(5, "v"), *st, (40, "v")], "flags": False})
    fl = [(31.317, "v"), (31.317, "f"), (263.129, "v")]
    for s in itertools.product(fl, repeat=4 if thorough else 3):
        gp.append({"which": "mwr", "steps": list(s), "flags": True})
    return radar, cov, lid, mod, gp


def run(ctx):
    radar, cov, lid, mod, gp = cases(ctx.thorough)
    ctx.assume("samples are kept away from bin edges and from equal distances, where either neighbour would do")
    ctx.assume("inside a cell of the model grid both ways of cutting it into triangles are accepted")
    ctx.explore("radar_bins", radar_bins, radar, chunk=1, bound="all words of 3 samples over 5 letters as gates x 0-3 samples per bin x 8 folding layouts x radars")
    ctx.explore("coverage", coverage, cov, chunk=1, bound="all radar and lidar presence patterns of 5 bins, edges of the day, nothing overlapping")
    ctx.explore("lidar", lidar_grid, lid, chunk=2, bound="lidar height grids x altitude x time steps x missing patterns of period 6 x empty profiles")
    ctx.explore("model", model_grid, mod, chunk=2, bound="all subsets of missing model profiles of 5 x time layouts x height grids x surface altitude")
    ctx.explore("stripes", artifacts, artifact_cases(ctx.thorough), chunk=2, bound="4 clouds x 41 sets of stripes through profiles or along gates (places, widths, lengths, edges) x samples per bin x depolarisation x velocities missing (two in five of the first two); days of 298 to 302 profiles")
    ctx.explore("gaps", gaps, gp, chunk=4, bound="all sequences of 3 (4) readings over step x validity for radiometer and disdrometer")
