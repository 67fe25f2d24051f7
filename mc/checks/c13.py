"""C13: drizzle parameters are retrieved exactly in drizzle and solve the documented equations."""

from __future__ import annotations

import contextlib
import itertools
import math
import os

import netCDF4
import numpy as np
from numpy import ma

from .. import catfile, ncio
from ..catfile import BITS, QBITS
from ..core import Out, check
from .c10 import MH, MT, bilinear, names

LEVEL = "model_checking"

# ---- look-up table ---------------------------------------------------------------------
# The binary table is not part of the repository; a synthetic one of the same layout is used.

DO = [1e-5 * 1.18**i for i in range(30)]
MU = [0.0, 1.0, 2.0, 4.0, 6.0, 10.0]


def table(freq):
    k = {"35": 1.0, "94": 1.7}[freq]
    width = [[(0.9 - 0.07 * i) * (0.05 + 400 * d) * k for d in DO] for i in range(len(MU))]
    ray = [[1 / (1 + k * 300 * d * (1 + 0.05 * i)) for d in DO] for i in range(len(MU))]
    v = [[-3000.0 * d * (1 + 0.02 * i) * (0.9 + 0.1 * k) for d in DO] for i in range(len(MU))]
    return width, ray, v


S = [[18.0 - 0.4 * i + 0.15 * j for j in range(len(DO))] for i in range(len(MU))]
LWF = [[0.6 + 0.03 * i + 0.004 * j for j in range(len(DO))] for i in range(len(MU))]
TERMV = [2500.0 * d for d in DO]


def write_table(path):
    with netCDF4.Dataset(path, "w") as nc:
        nc.createDimension("mu", len(MU))
        nc.createDimension("Do", len(DO))

        def put(name, a, dims):
            nc.createVariable(name, "f8", dims)[:] = a

        put("lu_medianD", DO, ("Do",))
        put("lu_u", MU, ("mu",))
        put("lu_k", S, ("mu", "Do"))
        put("lu_LWF", LWF, ("mu", "Do"))
        put("lu_termv", TERMV, ("Do",))
        for f in ("35", "94"):
            for n, a in zip(("width", "mie_ray", "v"), table(f)):
                put(f"lu_{n}_{f}", a, ("mu", "Do"))


@contextlib.contextmanager
def lut(tmp):
    """Serves the synthetic table whenever the missing table file is opened."""
    path = os.path.join(tmp, "lut.nc")
    write_table(path)
    real = netCDF4.Dataset

    class Dataset(real):
        def __new__(cls, filename, *args, **kwargs):
            if os.path.basename(str(filename)) == "mie_lu_tables.nc":
                filename = path
            return real(filename, *args, **kwargs)

    netCDF4.Dataset = Dataset
    try:
        yield
    finally:
        netCDF4.Dataset = real


# ---- reference -------------------------------------------------------------------------


def is_drizzle(c, q, rain, sigma):
    c, q = names(c, BITS), names(q, QBITS)
    return (
        not rain
        and sigma is not None
        and "falling" in c
        and not c & {"droplet", "freezing", "melting", "insect"}
        and {"radar", "lidar"} <= q
        and not q & {"clutter", "molecular", "att_liquid", "att_rain"}
    )


def status(c, q, rain, sigma, melting_profile):
    if rain:
        return 5
    dr = is_drizzle(c, q, rain, sigma)
    c, q = names(c, BITS), names(q, QBITS)
    warm = "droplet" in c and "freezing" not in c
    if warm and "falling" in c and not c & {"melting", "insect"} and "radar" in q and not q & {
        "clutter", "molecular"
    }:
        return 3
    if dr:
        return 2 if melting_profile else 1
    return 4 if warm else 0


def left(grid, x):
    i = 0
    while i < len(grid) and grid[i] < x:
        i += 1
    return i


def dia(ratio, mu=0.0, ray=1.0, k=1.0):
    g = math.gamma
    return (g(3 + mu) / g(7 + mu) * (3.67 + mu) ** 4 / (ray * k * ratio)) ** 0.25


def l2(*x):
    return math.sqrt(sum(v * v for v in x))


def solve(drizzle, z, beta, v, width_ht, pl, freq, zerr, berr):
    """One column, lowest gate first."""
    width, ray, vel = table(freq)
    nh = len(z)
    names_ = ("Do", "mu", "S", "drizzle_N", "drizzle_lwc", "drizzle_lwf", "v_drizzle", "v_air",
              "Do_error", "drizzle_lwc_error", "drizzle_lwf_error", "S_error", "v_drizzle_error")
    out = {n: [0.0] * nh for n in names_}
    corr = [1.0] * nh
    for j in range(nh):
        if not drizzle[j]:
            continue
        ratio = 2 / math.pi * beta[j] / z[j]
        d0 = dia(ratio, k=18.8)
        for _ in range(10):
            a = min(left(DO, d0), len(DO) - 1)
            b = min(left([-width[i][a] for i in range(len(MU))], -width_ht[j]), len(MU) - 1)
            d = dia(ratio * corr[j], MU[b], ray[b][a], S[b][a])
            if abs(d - d0) / d0 < 1e-3:
                break
            d0 = d
        s, mu = S[b][a], MU[b]
        f = math.exp(2 * s * beta[j] * pl[j])
        for m in range(j + 1, nh):
            corr[m] *= f
        a2 = min(left(DO, d), len(DO) - 1)
        out["Do"][j], out["mu"][j], out["S"][j] = d, mu, s
        out["drizzle_N"][j] = z[j] * (3.67 / d) ** 6
        lwc = 1000 / 3 * beta[j] * s * d * math.gamma(4 + mu) / math.gamma(3 + mu) / (3.67 + mu)
        out["drizzle_lwc"][j] = lwc
        out["drizzle_lwf"][j] = lwc * LWF[b][a2] * TERMV[a2]
        out["v_drizzle"][j] = -vel[b][a2]
        out["v_air"][j] = v[j] + vel[b][a2]
        ez, eb = (math.exp(x / (10 / math.log(10))) - 1 for x in (zerr, berr))

        def db(x):
            return 10 * math.log10(max(x, -0.9) + 1)

        small, tiny = 1e-5 < d <= 1e-4, d <= 1e-5
        e = l2(2 / 7 * l2(ez, eb), 0.07)
        if small:
            e = l2(0.25 * l2(ez, eb), 0.25)
        out["Do_error"][j] = db(e)
        out["v_drizzle_error"][j] = db(e * e if tiny else e)
        e = 0.25 * l2(ez, 3 * eb) if small else 1 / 7 * l2(ez, 6 * eb)
        out["drizzle_lwc_error"][j] = db(e)
        e = l2(1 / 7 * l2(3 * ez, 4 * eb), 0.07)
        if small:
            e = l2(0.5 * l2(ez, eb), 0.25)
        if tiny:
            e = l2(0.25 * l2(3 * ez, eb), 0.25)
        out["drizzle_lwf_error"][j] = db(e)
        out["S_error"][j] = db(0.5 * l2(ez, eb))
    out["beta_corr"] = corr
    return out


UW = [[5 + i + 2e-4 * h for h in MH] for i in range(4)]
VW = [[-3 + 0.5 * i + 1e-4 * h for h in MH] for i in range(4)]


def run_file(path, out, spec):
    """Writes the categorize file of `spec`, runs the product and checks everything."""
    from cloudnetpy.products import generate_drizzle

    time, height, alt = spec["time"], spec["height"], 90.0
    cat, qual, z, beta, v, sig, width, rain = (
        spec[k] for k in ("cat", "qual", "Z", "beta", "v", "v_sigma", "width", "rain")
    )
    nt, nh = cat.shape
    freq = {"35": 35.5, "94": 94.9}[spec["freq"]]
    dims = ("model_time", "model_height")
    zerr = 0.3 + 0.002 * np.arange(nt * nh).reshape(nt, nh) % 1.0
    fields = {
        "category_bits": cat.astype("i4"), "quality_bits": qual.astype("i4"), "Z": z, "beta": beta,
        "v": v, "v_sigma": sig, "rain_detected": rain, "radar_frequency": np.array(freq),
        "uwind": (np.array(UW), dims), "vwind": (np.array(VW), dims),
        "Z_error": zerr, "Z_bias": np.array(0.5), "beta_error": np.array(0.4), "beta_bias": np.array(0.8),
    }
    if width is not None:
        fields["width"] = width
    catfile.write(path, time, height, fields, altitude=alt, model_time=MT, model_height=MH)
    before = ncio.filehash(path)
    generate_drizzle(path, out)
    check(ncio.filehash(path) == before, "the categorize file was modified")
    got = catfile.load(out)
    f4 = lambda a: np.asarray(ma.filled(a, 0), "f4").astype(float)  # noqa: E731
    zf, bf, vf, sf = f4(z), f4(beta), f4(v), f4(sig)
    wf = f4(width) if width is not None else np.zeros((nt, nh))
    sm, rm = ma.getmaskarray(sig), ma.getmaskarray(rain)
    agl = [float(h) - alt for h in height]
    pl = [b - a for a, b in zip([0.0] + agl[:-1], agl)]
    keys = ("Do", "mu", "S", "beta_corr", "drizzle_N", "drizzle_lwc", "drizzle_lwf", "v_drizzle", "v_air",
            "Do_error", "drizzle_lwc_error", "drizzle_lwf_error", "S_error", "v_drizzle_error")
    data = {k: ma.filled(got[k].astype(float), np.nan).tolist() for k in keys}
    st_all = got["drizzle_retrieval_status"].tolist()
    states = []
    catl, quall = cat.tolist(), qual.tolist()
    for i in range(nt):
        raining = bool(rm[i] or rain[i] != 0)
        melt = any(w & 8 for w in catl[i])
        sigma = [None if sm[i, j] else sf[i, j] for j in range(nh)]
        dr = [is_drizzle(c, q, raining, s) for c, q, s in zip(catl[i], quall[i], sigma)]
        want = [status(c, q, raining, s, melt) for c, q, s in zip(catl[i], quall[i], sigma)]
        where = lambda j: (  # noqa: E731
            f"profile {i} gate {j} {sorted(names(catl[i][j], BITS))} {sorted(names(quall[i][j], QBITS))} "
            f"rain={rain[i]} v_sigma={sigma[j]}: "
        )
        for j in range(nh):
            check(st_all[i][j] == want[j], lambda: where(j) + f"status {st_all[i][j]}, expected {want[j]}")
            states.append(f"{catl[i][j]},{quall[i][j]},{raining},{sigma[j] is None},{melt}")
        if any(dr):
            wh = []
            for j, h in enumerate(height):
                if not dr[j]:
                    wh.append(None)
                    continue
                wind = math.hypot(bilinear(MT, MH, UW, time[i], h), bilinear(MT, MH, VW, time[i], h))
                div = agl[j] * math.radians(0.5)
                a, b = (wind + div) ** (2 / 3), (30 * wind + div) ** (2 / 3)
                wh.append(wf[i, j] - a / (b - a) * sigma[j])
            ref = solve_profile(dr, zf[i], bf[i], vf[i], wh, pl, spec["freq"], zerr[i])
        else:
            ref = {k: [0.0] * nh for k in keys}
            ref["beta_corr"] = [1.0] * nh
        if raining:
            ref["beta_corr"] = [0.0] * nh
        for k in keys:
            for j in range(nh):
                g, w = data[k][i][j], ref[k][j]
                if w == 0:
                    check(g != g or g == 0, lambda: where(j) + f"{k}={g}, nothing expected")
                else:
                    check(g == g and abs(g - w) <= 2e-3 * abs(w) + 1e-12,
                          lambda: where(j) + f"{k}={g}, expected {w}")
    ez, eb = (math.exp(x / (10 / math.log(10))) - 1 for x in (0.5, 0.8))
    for k, w in (("Do_bias", 2 / 7 * l2(ez, eb)), ("drizzle_lwc_bias", 1 / 7 * l2(ez, 6 * eb)),
                 ("drizzle_lwf_bias", 1 / 7 * l2(3 * ez, 4 * eb))):
        g = float(got[k])
        check(abs(g - 10 * math.log10(1 + w)) < 1e-4, lambda: f"{k}={g}, expected {w}")
    return states


def solve_profile(dr, zdb, beta, v, wh, pl, freq, zerr):
    """`solve` with one reflectivity error per gate."""
    z = [10 ** (min(x - 180, 0.0) / 10) for x in zdb]
    base = solve(dr, z, beta, v, wh, pl, freq, 0.0, 0.4)
    for j in range(len(dr)):
        if dr[j]:
            one = solve(dr, z, beta, v, wh, pl, freq, float(np.float32(zerr[j])), 0.4)
            for k in base:
                if k.endswith("_error"):
                    base[k][j] = one[k][j]
    return base


def run_bits(case, tmp) -> Out:
    cc, qq = np.meshgrid(np.arange(64), np.arange(1024), indexing="ij")
    words = np.stack([cc.ravel(), qq.ravel()], axis=1)
    nt, nh = case["shape"]
    n = len(words)
    words = words[(np.arange(n) * case["stride"]) % n]
    cat, qual = words[:, 0].reshape(nt, nh), words[:, 1].reshape(nt, nh)
    if not case["melting"]:
        cat = cat & ~8
    r = case["rain"]
    rain = ma.array([[0, 1, None][(i + r) % 3] or 0 for i in range(nt)],
                    mask=[(i + r) % 3 == 2 for i in range(nt)]) if r is not None else ma.zeros(nt)
    k = np.arange(n).reshape(nt, nh)
    sig = ma.array(0.05 + 0.01 * (k % 5))
    sig[(k // 5 + case["hole"]) % 3 == 0] = ma.masked
    spec = {
        "time": np.linspace(0, 24, nt + 2)[1:-1], "height": 120.0 + 30 * np.arange(nh), "freq": case["freq"],
        "cat": cat, "qual": qual, "Z": ma.array(-15.0 + (k % 7) * 4), "beta": ma.array(1e-6 * (1 + k % 11)),
        "v": ma.array(-1.5 + 0.1 * (k % 13)), "v_sigma": sig, "width": ma.array(0.1 + 0.02 * (k % 9)),
        "rain": rain,
    }
    with lut(tmp):
        st = run_file(os.path.join(tmp, "cat.nc"), os.path.join(tmp, "out.nc"), spec)
    return Out(states=sorted(set(st)), transitions=15 * n, traces=nt)


FALL, RL = 0b10, 0b11
GATES = {
    "clear": (0, 0, -20.0, 1e-6),
    "strong": (FALL, RL, 5.0, 2e-6),
    "weak": (FALL, RL, -25.0, 5e-6),
    "dense": (FALL, RL, -10.0, 6e-4),
    "tiny": (FALL, RL, -58.0, 1e-3),
    "nosigma": (FALL, RL, -15.0, 3e-6),
    "attenuated": (FALL, RL | 1 << 6 | 1 << 7, 10.0, 1e-6),
    "cloud": (FALL | 1, RL, -30.0, 1e-5),
    "melting": (FALL | 8, RL, 15.0, 1e-5),
}


def run_columns(case, tmp) -> Out:
    cols = case["columns"]
    nt, nh = len(cols), len(cols[0])
    pick = lambda k: np.array([[GATES[g][k] for g in c] for c in cols])  # noqa: E731
    sig = ma.array(np.full((nt, nh), case["sigma"]))
    for i, c in enumerate(cols):
        for j, g in enumerate(c):
            if g == "nosigma":
                sig[i, j] = ma.masked
    rain = ma.array(np.array([case["rain"] and i % 3 == 1 for i in range(nt)], "i4"))
    width = None if case["width"] is None else ma.array(np.full((nt, nh), case["width"]))
    height = 120.0 + (40.0 * np.arange(nh) if case["grid"] == "even" else np.cumsum([20, 50, 30, 100, 60, 25][:nh]))
    spec = {
        "time": np.linspace(0, 24, nt + 2)[1:-1], "height": height, "freq": case["freq"],
        "cat": pick(0), "qual": pick(1), "Z": ma.array(pick(2)), "beta": ma.array(pick(3)),
        "v": ma.array(np.full((nt, nh), -0.8)), "v_sigma": sig, "width": width, "rain": rain,
    }
    with lut(tmp):
        run_file(os.path.join(tmp, "cat.nc"), os.path.join(tmp, "out.nc"), spec)
    key = {k: v for k, v in case.items() if k != "columns"}
    return Out(states=[f"{c}{key}" for c in cols], transitions=15 * nt * nh, traces=nt)


def cases_bits(thorough):
    for freq, melting, rain in itertools.product(("35", "94"), (True, False), (None, 0, 1, 2)):
        for hole in range(4) if thorough else (0, 1):
            yield {"shape": [256, 256] if melting else [1024, 64], "stride": 40503 if hole else 1, "freq": freq,
                   "melting": melting, "rain": rain, "hole": hole}


def cases_columns(thorough):
    depth = 4 if thorough else 3
    cols = [list(c) for c in itertools.product(GATES, repeat=depth)]
    step = 365
    for freq, width, sigma, grid in itertools.product(
        ("35", "94"), (None, 0.05, 0.4), (0.02, 0.3), ("even", "uneven")
    ):
        for k in range(0, len(cols), step):
            yield {"columns": cols[k : k + step], "freq": freq, "width": width, "sigma": sigma, "grid": grid,
                   "rain": k == 0}


def run(ctx) -> None:
    ctx.explore("bits", run_bits, list(cases_bits(ctx.thorough)), chunk=1,
                bound="all 2^16 bit combinations x rain class x missing velocity deviation x band")
    ctx.explore("columns", run_columns, list(cases_columns(ctx.thorough)), chunk=1,
                bound="all columns of 3 (4) gates over 9 kinds x band x width x turbulence x grid")
    ctx.assume("the scattering table, absent from this repository, is replaced by a synthetic one of the same layout")
    ctx.assume("reflectivity, backscatter and velocity exist at drizzle gates")
