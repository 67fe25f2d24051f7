"""C11: droplet effective radius over every liquid layer follows Frisch et al. (2002)."""

from __future__ import annotations

import itertools
import math
import os

import numpy as np
from numpy import ma

from .. import catfile, ncio
from ..core import Out, check

LEVEL = "model_checking"

# what a gate can be: category word, reflectivity (dBZ)
GATES = {
    "clear": (0, None),
    "echo": (0, -20.0),
    "liquid": (0b1, -30.0),
    "liquid2": (0b1, -18.0),
    "lidar": (0b1, None),  # droplets without radar echo
    "mixed": (0b111, -12.0),
    "mixed_noz": (0b111, None),
    "ice": (0b110, -10.0),
    "melting": (0b1010, 5.0),
    "insect_ice": (0b100110, -25.0),
}
LWP = [0.12, None, 0.0, -0.01, 0.004]
RAIN = [(0, False), (1, True), (None, True)]
PARAMS = {
    "default": (2.0, 200.0e6, 200.0e6, 0.35, 0.1, 5.0e-3),
    "other": (1.5, 100.0e6, 150.0e6, 0.25, 0.08, 4.0e-3),
}


def reference(gates, lwp, rain, pl, p):
    """One profile -> {variable: list, None = missing}, statuses."""
    ddbz, n, dn, s, ds, dq = p
    nh = len(gates)
    out = {k: [None] * nh for k in ("der", "der_error", "der_scaled", "der_scaled_error", "N_scaled")}
    words = [GATES[g][0] for g in gates]
    z = [None if GATES[g][1] is None else 10 ** (f4(GATES[g][1]) / 10) for g in gates]
    i = 0
    while i < nh:
        if not words[i] & 1:
            i += 1
            continue
        j = i
        while j < nh and words[j] & 1:
            j += 1
        layer = [k for k in range(i, j) if z[k] is not None]
        integral = sum(math.sqrt(z[k]) * pl[k] for k in layer)
        c = 10 ** (ddbz / 10) / 6
        for k in layer:
            der = 0.5 * (z[k] / n) ** (1 / 6) * math.exp(-0.5 * s * s) * 1e-3
            out["der"][k] = der
            out["der_error"][k] = der * math.sqrt((dn / 6 / n) ** 2 + (s * ds) ** 2 + c * c)
            if lwp is not None and lwp > 0:
                sc = (
                    1e-6 * z[k] ** (1 / 6) / (2 * lwp ** (1 / 3))
                    * (math.pi * 1000 / 6 * integral) ** (1 / 3) * math.exp(-2 * s * s)
                )
                out["der_scaled"][k] = sc
                out["der_scaled_error"][k] = sc * math.sqrt(
                    c * c + (4 * s * ds) ** 2 + (dq / 3 / lwp) ** 2
                )
                out["N_scaled"][k] = z[k] / (2 * sc * 1e3 / math.exp(-0.5 * s * s)) ** 6
        i = j
    st = []
    for k in range(nh):
        w = words[k]
        fall, liq = w & 2, w & 1
        v = 0
        if fall and w & 4 and not w & 8 and not liq and not w & 32:
            v = 4
        if out["der"][k] is not None:
            v = 3 if rain else 2 if fall else 1
        st.append(v)
    return out, st


def f4(x):
    return float(np.float32(x))


def run_der(case, tmp) -> Out:
    from cloudnetpy.products import generate_der
    from cloudnetpy.products.der import Parameters

    rows = case["rows"]  # (gates, lwp index, rain index)
    nt, nh = len(rows), len(rows[0][0])
    if case["grid"] == "even":
        height = 200.0 + 40.0 * np.arange(nh)
    else:
        height = 150.0 + np.cumsum([30.0, 30.0, 75.0, 20.0, 100.0, 30.0][:nh])
    alt = 90.0
    cat = np.array([[GATES[g][0] for g in r[0]] for r in rows], "i4")
    z = ma.masked_all((nt, nh))
    for i, r in enumerate(rows):
        for j, g in enumerate(r[0]):
            if GATES[g][1] is not None:
                z[i, j] = GATES[g][1]
    lwp = ma.array([0.0 if LWP[r[1]] is None else LWP[r[1]] for r in rows],
                   mask=[LWP[r[1]] is None for r in rows])
    rain = ma.array([RAIN[r[2]][0] or 0 for r in rows], mask=[RAIN[r[2]][0] is None for r in rows])
    path, out = os.path.join(tmp, "cat.nc"), os.path.join(tmp, "der.nc")
    catfile.write(
        path, np.linspace(0.1, 23.9, nt), height,
        {"category_bits": cat, "quality_bits": np.zeros((nt, nh), "i4"), "Z": z, "lwp": lwp,
         "rain_detected": rain, "radar_frequency": np.array(35.5)},
        altitude=alt,
    )
    before = ncio.filehash(path)
    p = PARAMS[case["params"]]
    generate_der(path, out, parameters=None if case["params"] == "default" else Parameters(*p))
    check(ncio.filehash(path) == before, "the categorize file was modified")
    got = catfile.load(out)
    agl = [f4(h) - alt for h in height]
    pl = [b - a for a, b in zip([0.0] + agl[:-1], agl)]
    states = []
    for i, (gates, li, ri) in enumerate(rows):
        lw = None if LWP[li] is None else f4(LWP[li])
        want, st = reference(gates, lw, RAIN[ri][1], pl, p)
        where = lambda: f"profile {gates} lwp={LWP[li]} rain={RAIN[ri][0]} grid={case['grid']}: "  # noqa: E731
        g = got["der_retrieval_status"][i].tolist()
        check(g == st, lambda: where() + f"status {g}, documented {st}")
        for k, ref in want.items():
            v = got[k][i].tolist()
            check(ncio.same(v, ref, 2e-4), lambda: where() + f"{k} {v}, expected {ref}")
        states.append(f"{gates}{li}{ri}{case['grid']}")
    return Out(states=states, transitions=nt * nh * 6, traces=nt)


def cases(thorough):
    depth = 4 if thorough else 3
    profiles = list(itertools.product(GATES, repeat=depth))
    rows = [(list(g), a, b) for g in profiles for a in range(len(LWP)) for b in range(len(RAIN))]
    if not thorough:
        # deeper layers with fewer kinds of gate
        few = ["clear", "liquid", "liquid2", "lidar"]
        deep = [(list(g), a, 0) for g in itertools.product(few, repeat=5) for a in (0, 1, 2)]
    else:
        few = ["clear", "liquid", "liquid2", "lidar", "mixed"]
        deep = [(list(g), a, b) for g in itertools.product(few, repeat=6) for a in (0, 1, 2) for b in (0, 1)]
    step = 1500
    for block in (rows, deep):
        for k in range(0, len(block), step):
            for grid, par in (("even", "default"), ("uneven", "default"), ("uneven", "other")):
                yield {"rows": block[k : k + step], "grid": grid, "params": par}
    # uniform files: nothing missing, nothing liquid, everything missing
    for g in (["liquid"] * 3, ["clear"] * 3, ["lidar"] * 3, ["mixed", "ice", "liquid"]):
        for li in range(len(LWP)):
            for ri in range(len(RAIN)):
                for n in (2, 3):
                    yield {"rows": [(g, li, ri)] * n, "grid": "even", "params": "default"}


def run(ctx) -> None:
    ctx.explore("layers", run_der, list(cases(ctx.thorough)), chunk=1,
                bound="all profiles of 3 (4) gates over 10 kinds of gate x liquid water path x rain, all profiles "
                      "of 5 (6) gates over the liquid kinds, even and uneven gates, two parameter sets")
    ctx.assume("reflectivity values are finite")
