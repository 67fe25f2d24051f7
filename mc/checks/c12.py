"""C12: liquid water content distributes the measured liquid water path over the liquid layers."""

from __future__ import annotations

import itertools
import math
import os

import numpy as np
from numpy import ma

from .. import catfile, ncio
from ..core import Out, check
from .c10 import MH, MODEL_T, MT, bilinear

LEVEL = "model_checking"

# category word, quality word (bit 0 radar, bit 1 lidar)
GATES = {
    "clear": (0, 0),
    "lidar": (1, 2),
    "radar": (1, 1),
    "both": (1, 3),
    "none": (1, 0),
    "ice": (0b110, 3),
}
LWP = [0.05, None, 0.0, -0.02, 0.004, 0.6, 0.037]
RAIN = [(0, False), (1, True), (None, True)]
MODEL_P = [[101000 * math.exp(-h / 8000) + 50 * i for h in MH] for i in range(4)]


def clouds(gates):
    out, i = [], 0
    while i < len(gates):
        if GATES[gates[i]][0] & 1:
            j = i
            while j < len(gates) and GATES[gates[j]][0] & 1:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def adiabatic(gates, pl, grads):
    ad = [0.0] * len(gates)
    for i, j in clouds(gates):
        s = 0.0
        for k in range(i, j):
            s += pl[k]
            ad[k] = s * grads[i]
    return ad


def ref_status(gates, lwp, ad, pl, even):
    """Admissible statuses per gate of a profile with usable liquid water path and no rain."""
    nh = len(gates)
    plain = [{1} if GATES[g][0] & 1 else {0} for g in gates]
    cl = clouds(gates)
    if not cl:
        return plain
    b, t = cl[-1]
    seen = [GATES[g][1] & 3 for g in gates[b:t]]
    lidar_only = any(seen) and all(s in (0, 2) for s in seen)
    total = sum(a * p for a, p in zip(ad, pl))
    if not lidar_only or total >= lwp:
        return plain
    if b == 0:  # depth of a layer on the ground is not known: adjusting it is optional
        return [p | {1, 2, 3} for p in plain]
    out = [{2} if GATES[g][0] & 1 else {0} for g in gates]
    new = list(ad)
    for d in range(1, nh - b):
        k = b + d
        new[k] = ad[b] * (d + 1)
        if not GATES[gates[k]][0] & 1:
            out[k] = {3}
        if sum(a * p for a, p in zip(new, pl)) > lwp:
            break
    if not even:
        out = [o | ({0, 3} if 3 in o or 0 in o else set()) for o in out]
    return out


def run_lwc(case, tmp) -> Out:
    import atmoslib

    from cloudnetpy.products import generate_lwc

    rows = case["rows"]
    nt, nh = len(rows), len(rows[0][0])
    if case["grid"] == "even":
        height = 140.0 + 50.0 * np.arange(nh)
    elif case["grid"] == "high":  # even gates far above the ground
        height = 200.0 + 50.0 * np.arange(nh)
    else:
        height = 150.0 + np.cumsum([30.0, 30.0, 75.0, 20.0, 100.0, 30.0][:nh])
    alt = 90.0
    cat = np.array([[GATES[g][0] for g in r[0]] for r in rows], "i4")
    qual = np.array([[GATES[g][1] for g in r[0]] for r in rows], "i4")
    lwp = ma.array([0.0 if LWP[r[1]] is None else LWP[r[1]] for r in rows],
                   mask=[LWP[r[1]] is None for r in rows])
    lerr = 0.002 + 0.001 * (np.arange(nt) % 7)
    rain = ma.array([RAIN[r[2]][0] or 0 for r in rows], mask=[RAIN[r[2]][0] is None for r in rows])
    time = np.linspace(0.1, 23.9, nt)
    path, out = os.path.join(tmp, "cat.nc"), os.path.join(tmp, "lwc.nc")
    dims = ("model_time", "model_height")
    catfile.write(
        path, time, height,
        {"category_bits": cat, "quality_bits": qual, "lwp": lwp, "lwp_error": lerr,
         "rain_detected": rain, "radar_frequency": np.array(35.5),
         "temperature": (np.array(MODEL_T), dims), "pressure": (np.array(MODEL_P), dims)},
        altitude=alt, model_time=MT, model_height=MH,
    )
    before = ncio.filehash(path)
    generate_lwc(path, out)
    check(ncio.filehash(path) == before, "the categorize file was modified")
    got = catfile.load(out)
    agl = [float(h) - alt for h in height]
    pl = [b - a for a, b in zip([0.0] + agl[:-1], agl)]
    tt = np.array([[bilinear(MT, MH, MODEL_T, t, h) for h in height] for t in time])
    pp = np.array([[bilinear(MT, MH, MODEL_P, t, h) for h in height] for t in time])
    grads = np.asarray(atmoslib.adiabatic_lwc_gradient(tt, pp))
    states = []
    want_lwc = np.zeros((nt, nh))
    for i, (gates, li, ri) in enumerate(rows):
        where = lambda: f"profile {gates} lwp={LWP[li]} rain={RAIN[ri][0]} grid={case['grid']}: "  # noqa: E731
        ad = adiabatic(gates, pl, grads[i])
        total = sum(a * p for a, p in zip(ad, pl))
        lw = None if LWP[li] is None else max(0.0, float(np.float32(LWP[li])))
        usable = lw is not None and not RAIN[ri][1]
        v = got["lwc"][i].tolist()
        st = got["lwc_retrieval_status"][i].tolist()
        if not usable or total == 0:
            check(all(x is None or (usable and x == 0) for x in v), lambda: where() + f"lwc {v} without retrieval")
        else:
            ref = [a * lw / total for a in ad]
            want_lwc[i] = ref
            for x, w in zip(v, ref):
                check((x is not None or w == 0) and abs((x or 0.0) - w) <= 1e-4 * w,
                      lambda: where() + f"lwc {v}, expected {ref}")
            integral = sum((x or 0.0) * p for x, p in zip(v, pl))
            check(abs(integral - lw) <= 1e-4 * lw, lambda: where() + f"lwc adds up to {integral}")
        if usable:
            allowed = ref_status(gates, lw, ad, pl, case["grid"] != "uneven")
        else:
            none = {4, 6} if RAIN[ri][1] else {4, 5}
            allowed = [none if GATES[g][0] & 1 else none | {0} for g in gates]
        for x, a in zip(st, allowed):
            check(x in a, lambda: where() + f"status {st}, documented {allowed}")
        states.append(f"{gates}{li}{ri}{case['grid']}")
    # error of the retrieved values
    g0, g1 = np.gradient(want_lwc)
    for i, (gates, li, ri) in enumerate(rows):
        e = got["lwc_error"][i].tolist()
        lw = LWP[li]
        for k in range(nh):
            w = want_lwc[i, k]
            if w <= 0:
                check(e[k] is None, lambda: f"error {e} without lwc in profile {rows[i]}")
                continue
            rel = min(5.0, math.hypot(g0[i, k], g1[i, k]) / w / 2)
            rel = math.hypot(rel, min(10.0, lerr[i] / lw))
            check(e[k] is not None and abs(e[k] / rel - 1) < 1e-3,
                  lambda: f"lwc_error {e} in profile {rows[i]}, expected {rel} at gate {k}")
    for name, ref in (("lwp", lwp), ("lwp_error", ma.array(lerr))):
        check(ncio.same(got[name].tolist(), ref.tolist(), 1e-5) , f"{name} not passed on unchanged")
    return Out(states=states, transitions=nt * nh * 3, traces=nt)


def cases(thorough):
    depth = 5 if thorough else 4
    kinds = list(GATES)
    rows = [(list(g), a, b) for g in itertools.product(kinds, repeat=depth)
            for a in range(len(LWP)) for b in range(len(RAIN))]
    few = ["clear", "lidar", "both"]
    rows2 = [(list(g), a, 0) for g in itertools.product(few, repeat=6) for a in (0, 1, 4, 5, 6)]
    step = 1500
    for block in (rows, rows2):
        for k in range(0, len(block), step):
            for grid in ("even", "high", "uneven"):
                yield {"rows": block[k : k + step], "grid": grid}
    for g in (["lidar"] * 3, ["clear"] * 3, ["clear", "clear", "lidar"], ["clear", "lidar", "clear"]):
        for li in range(len(LWP)):
            for ri in range(len(RAIN)):
                for n in (2, 3):
                    yield {"rows": [(g, li, ri)] * n, "grid": "even"}


def run(ctx) -> None:
    ctx.explore("layers", run_lwc, list(cases(ctx.thorough)), chunk=1,
                bound="all profiles of 4 (5) gates over 6 kinds of gate and of 6 gates over 3 kinds x liquid water "
                      "path x rain, even gates from two heights and uneven gates")
    ctx.assume("whether a lidar-only layer starting at the lowest gate is extended is left open")
    ctx.assume("rain may be marked with status 4 or 6; without liquid a missing or zero content is accepted")
    ctx.assume("which new gates are marked on uneven grids is left open")
