"""C10: ice water content and ice effective radius are retrieved exactly where there is ice."""

from __future__ import annotations

import itertools
import math
import os

import numpy as np
from numpy import ma

from .. import catfile, ncio
from ..catfile import BITS, QBITS
from ..core import Out, check

LEVEL = "model_checking"

# K2liquid0, ZT, T, Z, c  (Hogan et al. 2006, Griesche et al. 2020)
COEFF = {
    ("iwc", "Ka"): (0.878, 0.000242, -0.0186, 0.0699, -1.63),
    ("iwc", "W"): (0.669, 0.000580, -0.00706, 0.0923, -0.992),
    ("ier", "Ka"): (0.878, -0.000205, -0.0015, 0.0016, -1.52),
    ("ier", "W"): (0.669, -0.000296, -0.00193, -0.0, -1.502),
}
RHO_ICE = 917.0


def names(word, table):
    return {n for i, n in enumerate(table) if word >> i & 1}


def convert(product, band, z, t):
    k2, zt, ct, cz, c = COEFF[product, band]
    zs = z + 10 * math.log10(k2 / 0.93)
    x = 10 ** (zt * zs * t + ct * t + cz * zs + c)
    return x * 0.001 if product == "iwc" else x * 3 / (2 * RHO_ICE)


def statuses(c, q, z_ok, rain):
    """Documented retrieval status (the set of admissible ones) and whether a value exists."""
    c, q = names(c, BITS), names(q, QBITS)
    ice = {"falling", "freezing"} <= c and not c & {"melting", "insect"}
    kinds = ("liquid", "rain", "melting")
    attenuated = any("att_" + k in q for k in kinds)
    left = any("att_" + k in q and "cor_" + k not in q for k in kinds)
    if ice:
        if left:
            return ({2} if z_ok else {2, 4}), False
        if not z_ok:
            return {4}, False
        if attenuated:
            return {3}, True
        return {1}, True
    if rain and "freezing" in c and "melting" not in c:
        return {6}, False
    if "melting" in c or ("falling" in c and "freezing" not in c and "insect" not in c):
        return {7}, False
    return {0}, False


def bilinear(mt, mh, field, t, h):
    def pos(x, grid):
        i = max(0, min(len(grid) - 2, int(np.searchsorted(grid, x, "right")) - 1))
        return i, (x - grid[i]) / (grid[i + 1] - grid[i])

    i, a = pos(t, mt)
    j, b = pos(h, mh)
    return (
        field[i][j] * (1 - a) * (1 - b)
        + field[i + 1][j] * a * (1 - b)
        + field[i][j + 1] * (1 - a) * b
        + field[i + 1][j + 1] * a * b
    )


MT = [0.0, 8.0, 16.0, 24.0]
MH = [0.0, 3000.0, 9000.0, 15000.0]
MODEL_T = [[290 - 6.5e-3 * h + 2 * i + (3 if (i + j) % 2 else 0) for j, h in enumerate(MH)] for i in range(4)]

RAIN = {  # stored value of the rain variable -> raining?
    "rain_detected": [(0, False), (1, True), (None, True)],
    "rainfall_rate": [(0.0, False), (1e-7, True), (None, True)],
    "rain_rate": [(0.0, False), (2e-6, True), (None, True)],
}
Z = [None, -31.0, 4.5, 17.0]


def run_ice(case, tmp) -> Out:
    from cloudnetpy.products import generate_ier, generate_iwc

    nt, nh = case["shape"]
    words = case["words"]
    if words == "all":
        cc, qq = np.meshgrid(np.arange(64), np.arange(1024), indexing="ij")
        words = np.stack([cc.ravel(), qq.ravel()], axis=1)
    else:
        words = np.array(words)
    n = nt * nh
    words = np.resize(words, (n, 2))
    perm = (np.arange(n) * case["stride"]) % n
    words = words[perm]
    cat, qual = words[:, 0].reshape(nt, nh), words[:, 1].reshape(nt, nh)
    z = ma.masked_all((nt, nh))
    for i in range(nt):
        for j in range(nh):
            v = Z[(i // 3 + j + case["zshift"]) % 4]
            if v is not None or case["full"]:
                z[i, j] = 2.0 if v is None else v
    rname = case["rain"]
    rvals = [RAIN[rname][(i + case["rshift"]) % 3] for i in range(nt)]
    rain = ma.array([0 if v is None else v for v, _ in rvals], mask=[v is None for v, _ in rvals])
    time = np.linspace(0.0, 24.0, nt + 2)[1:-1]
    height = 100.0 + np.linspace(60, 12000, nh)
    sens = np.linspace(-60, -20, nh)
    zerr = ma.array(0.1 + 0.01 * (np.arange(n) % 97).reshape(nt, nh))
    if not case["full"]:
        zerr[ma.getmaskarray(z)] = ma.masked
    freq = {"Ka": 35.5, "W": 94.9}[case["band"]]
    path = os.path.join(tmp, "cat.nc")
    catfile.write(
        path, time, height,
        {
            "category_bits": cat.astype("i4"),
            "quality_bits": qual.astype("i4"),
            "radar_frequency": np.array(freq),
            rname: rain,
            "Z": z,
            "Z_error": zerr,
            "Z_bias": np.array(0.7),
            "Z_sensitivity": sens,
            "temperature": (np.array(MODEL_T), ("model_time", "model_height")),
        },
        model_time=MT, model_height=MH,
    )
    before = ncio.filehash(path)
    tgrid = [[bilinear(MT, MH, MODEL_T, t, h) - 273.15 for h in height] for t in time]
    states, trans = [], 0
    for product, gen in (("iwc", generate_iwc), ("ier", generate_ier)):
        out = os.path.join(tmp, product + ".nc")
        gen(path, out)
        check(ncio.filehash(path) == before, "the categorize file was modified")
        got = catfile.load(out)
        val, st = got[product], got[product + "_retrieval_status"]
        err = got[product + "_error"]
        k2, zt, ct, cz, cc0 = COEFF[product, case["band"]]
        vm, em = ma.getmaskarray(val), ma.getmaskarray(err)
        zm = ma.getmaskarray(z)
        zf = ncio_f4(z.filled(0))
        check(not ma.getmaskarray(st).any(), "missing retrieval status")
        for i in range(nt):
            for j in range(nh):
                c, q = int(cat[i, j]), int(qual[i, j])
                allowed, has = statuses(c, q, not zm[i, j], rvals[i][1])
                here = lambda: (  # noqa: E731
                    f"{product} at {sorted(names(c, BITS))} {sorted(names(q, QBITS))} "
                    f"Z={z[i, j]} rain={rvals[i][0]}: "
                )
                check(int(st[i, j]) in allowed, lambda: here() + f"status {st[i, j]}, documented {allowed}")
                check(vm[i, j] != has, lambda: here() + ("no value" if has else f"value {val[i, j]}"))
                states.append(f"{product}{c},{q},{zm[i, j]},{rvals[i][1]}")
                if has:
                    want = convert(product, case["band"], float(zf[i, j]), tgrid[i][j])
                    check(abs(val[i, j] / want - 1) < 1e-4, lambda: here() + f"{val[i, j]}, expected {want}")
                    if product == "iwc":
                        w = math.hypot(1.7, float(zerr[i, j]) * (zt * tgrid[i][j] + cz) * 10)
                    else:
                        w = want * math.hypot(0.4, 0.4)
                    check(not em[i, j] and abs(err[i, j] / w - 1) < 1e-3,
                          lambda: here() + f"error {err[i, j]}, expected {w}")
                elif "freezing" not in names(c, BITS) or allowed == {2}:
                    check(em[i, j], lambda: here() + f"error {err[i, j]} without a value")
                trans += 1
        if product == "iwc":
            check(abs(float(got["iwc_bias"]) - 0.7 * cz * 10) < 1e-5, f"iwc_bias {got['iwc_bias']}")
            for j in range(nh):
                tm = sum(tgrid[i][j] for i in range(nt)) / nt
                w = convert("iwc", case["band"], sens[j], tm)
                check(abs(got["iwc_sensitivity"][j] / w - 1) < 1e-4,
                      lambda: f"sensitivity {got['iwc_sensitivity'][j]} at gate {j}, expected {w}")
    return Out(states=sorted(set(states)), transitions=trans, traces=2 * n)


def ncio_f4(a):
    return np.asarray(a, "f4").astype(float)


def cases(thorough):
    for band, rshift, zshift in itertools.product(("Ka", "W"), range(3), (0, 1, 2, 3) if thorough else (0, 1)):
        yield {"shape": [256, 256], "words": "all", "stride": [1, 4099, 9973][rshift], "band": band,
               "rain": list(RAIN)[(rshift + zshift) % 3], "rshift": rshift, "zshift": zshift, "full": False}
    # files without any missing value, tiny files and files with one kind of pixel only
    ice, q_unc, q_cor = 0b110, 1 | 1 << 6, 1 | 1 << 4 | 1 << 5
    for w in ([[0, 0]], [[ice, 1]], [[ice, q_unc]], [[ice, q_cor]], [[ice, 0]], [[ice, 1], [0, 0]]):
        for shape in ([2, 3], [2, 2], [5, 5]):
            for full in (False, True):
                for rname in RAIN:
                    yield {"shape": shape, "words": w, "stride": 1, "band": "W", "rain": rname,
                           "rshift": 0, "zshift": 0, "full": full}


def run(ctx) -> None:
    ctx.explore("ice", run_ice, list(cases(ctx.thorough)), chunk=1,
                bound="all 2^16 bit combinations x missing or present Z x rain class x band, "
                      "and uniform files of 2 to 5 profiles")
    ctx.assume("Z, Z_error and model temperature are finite")
