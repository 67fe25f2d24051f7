"""C15: reflectivity is corrected for attenuation exactly as documented, with its error.

Whole categorize runs (see C14).  The bits the run itself wrote decide where liquid, rain, melting and
freezing are; amounts, corrected reflectivity, error, sensitivity and quality bits are recomputed from them.
"""

from __future__ import annotations

import itertools

import numpy as np
from numpy import ma

from .. import catfile, catref
from ..core import Out, Violation, check
from . import c14

LEVEL = "model_checking"
NAN = np.nan
MM = 1 / 3.6e6
NH = c14.NH
C = 299792458.0


def values(v):
    return ma.filled(v.astype(float), NAN)


def bit(word, names, name):
    return (ma.getdata(word) >> names.index(name)) & 1 == 1


def judge(got, obs, d, labels, shape):
    nt, nh = obs.z.shape
    bits = {n: bit(got["category_bits"], list(catfile.BITS), n) for n in catfile.BITS}
    rain = ma.filled(got["rain_detected"], 0).astype(bool)
    clutter = bit(got["quality_bits"], list(catfile.QBITS), "clutter")
    freq = obs.opts["freq"]
    a = catref.attenuation(obs, bits, rain, d, freq)

    def same(name, want, tol=2e-5):
        g = values(got[name])
        want = np.asarray(want, float)
        check(g.shape == want.shape, f"{name} has shape {g.shape}")
        with np.errstate(invalid="ignore"):
            bad = np.argwhere((np.isnan(g) != np.isnan(want)) | (np.abs(g - want) > tol * np.maximum(1, np.abs(want))))
        if len(bad):
            k = tuple(bad[0])
            raise Violation(f"{name} at {k} ({labels[k[0]] if len(k) == 2 else 'gate'}) is {g[k]}, expected {want[k]} "
                            f"({len(bad)} values differ)")

    for n in ("gas", "liquid", "rain", "melting"):
        same(f"radar_{n}_atten", a[n])
    zero = lambda x: np.where(np.isnan(x), 0, x)  # noqa: E731
    z = obs.z + zero(a["gas"]) + zero(a["liquid"]) + zero(a["rain"]) + zero(a["melting"])
    same("Z", z)
    power = z - 20 * np.log10(obs.rng)[None, :]
    some = power[~np.isnan(power)]
    low = np.percentile(some, 0.1) if some.size else 0.0
    width = obs.width if obs.width is not None else np.where(np.isnan(z), NAN, 0.3)
    dwell = np.median(np.diff(obs.time)) * 3600
    with np.errstate(divide="ignore", invalid="ignore"):
        pulses = 4 * np.sqrt(np.pi) * dwell * width * freq * 1e9 / C
        prec = 10 / np.log(10) / np.sqrt(pulses) * (1 + 10 ** ((low - power) / 10) / 3)
    err = np.sqrt(prec**2 + sum(zero(a[k + "_error"]) ** 2 for k in ("gas", "liquid", "rain", "melting")))
    unc = a["unc_liquid"] | a["unc_rain"] | a["unc_melting"]
    same("Z_error", np.where(unc, NAN, err), 1e-4)
    sens = low + 20 * np.log10(obs.rng) + a["gas"].mean(axis=0)
    for j in range(nh):
        zc = z[clutter[:, j], j]
        zc = zc[~np.isnan(zc)]
        if zc.size:
            sens[j] = np.median(zc)
    same("Z_sensitivity", sens, 1e-4)
    check(float(got["Z_bias"]) == 1.0, "Z_bias")
    for n in ("liquid", "rain", "melting"):
        for pre, want in (("att_", a["att_" + n]), ("cor_", a["att_" + n] & ~a["unc_" + n])):
            b = bit(got["quality_bits"], list(catfile.QBITS), pre + n)
            bad = np.argwhere(b != want)
            if len(bad):
                i, j = bad[0]
                raise Violation(f"quality bit {pre}{n} at {(i, j)} ({labels[i]}) is {b[i, j]}, expected {want[i, j]}")
    # what was measured passes through unchanged
    same("v", obs.v)
    if obs.lwp is not None:
        same("lwp", obs.lwp)
        same("lwp_error", obs.lwp_error)
    if obs.rate is not None:
        check(np.allclose(values(got["rainfall_rate"]), obs.rate, rtol=1e-5, atol=1e-12, equal_nan=True), "rainfall rate")
    states = set()
    for i in range(nt):
        st = "".join(
            str(int(a["att_liquid"][i, j]) + 2 * int(a["unc_liquid"][i, j])) + str(int(a["att_rain"][i, j]) + 2 * int(a["unc_rain"][i, j]))
            + str(int(a["att_melting"][i, j]) + 2 * int(a["unc_melting"][i, j])) for j in range(0, nh, 2))
        states.add(f"{shape}{st}{int(clutter[i].any())}")
    return states


def run_scene(case, tmp):
    profiles, labels = [], []
    for col, lwp, (rate, n) in case["points"]:
        for _ in range(3):
            p = c14.blank()
            if case["clutter"]:
                c14.echo(p, [2, 3], -30.0 + lwp if lwp == lwp else -31.0, v=0.01, ldr=-20.0)
            for s, k in enumerate(col):
                c14.slot(p, k, range(4 * s, 4 * s + 4))
            if case["band"]:  # bright band
                p["ldr"][case["band"]] = -15.0
                p["v"][: case["band"]] -= 3.0
            p["lwp"], p["rate"], p["n"] = lwp, rate, n
            p["z"] = p["z"] + 0.013 * (len(profiles) % 41)  # few gates have the same power
            profiles.append(p)
            labels.append(f"{'/'.join(col)} lwp {lwp} rate {rate} n {n}")
    rng = np.array([50.0 * (k + 1) if k < 12 or not case["uneven"] else 50.0 * (k + 1) + 12.0 * (k - 11) for k in range(NH)])
    got, obs, d = c14.execute(case, tmp, profiles, rng=rng, temp=case["temp"], opts=case["opts"],
                              times=600 + np.arange(len(profiles)) + (7 * (np.arange(len(profiles)) > 40) if case["clutter"] else 0))
    return Out(states=judge(got, obs, d, labels, str(case["opts"])), transitions=obs.z.size * 12, traces=len(profiles))


def cases(thorough):
    out = []
    cols = [
        ("heavy", "heavy", "heavy", "ice"), ("heavy", "heavy", "liquid_echo", "ice"), ("liquid_echo", "clear", "liquid_echo", "ice"),
        ("clear", "liquid", "ice", "liquid"), ("heavy", "liquid_echo", "heavy", "liquid_echo"), ("ice", "ice", "liquid_echo", "clear"),
        ("heavy", "clear", "clear", "heavy"), ("clear", "clear", "clear", "clear"), ("insect", "insect", "heavy", "ice"),
    ]
    if thorough:
        kinds = ("heavy", "liquid_echo", "ice", "clear", "liquid")
        cols = [c for c in itertools.product(kinds, repeat=4)]
    lwps = (0.2, 0.01, 0.0, -0.02, NAN)
    rains = ((0.0, 0.0), (0.0, 100.0), (1 * MM, 100.0), (8 * MM, 100.0), (8 * MM, NAN), (NAN, NAN), (NAN, 100.0), (NAN, NAN))
    points = list(itertools.product(cols, lwps, rains))
    options = [
        {}, {"freq": 94.0}, {"dis": False}, {"dis": False, "freq": 94.0}, {"mwr": False}, {"mwr": False, "dis": False},
        {"width": False}, {"ldr": False, "width": False}, {"ldr": False, "sldr": True, "freq": 94.0},
    ]
    temps = ("mid0", "warm0", "hot", "cold", "inversion") if thorough else ("mid0", "warm0")
    for opts, temp, uneven, clutter, band in itertools.product(
            options, temps, (False, True), (False, True), (0, 11) if thorough else (0, 11)):
        if not thorough and uneven != clutter:
            continue
        sub = points
        if not opts.get("dis", True):
            sub = [q for q in sub if q[2] == (0.0, 0.0)]
        if not opts.get("mwr", True):
            sub = [q for q in sub if q[1] == 0.2]
        # keep the number of profiles below 300, where the stripe filter starts to act
        for part in c14.chunks(sub, 90):
            out.append({"points": part, "temp": temp, "opts": opts, "uneven": uneven, "clutter": clutter, "band": band})
    return out


def run(ctx):
    ctx.assume("interpolation of the model to the grid is judged by C16; here the model is constant in time and linear in height")
    ctx.explore("attenuation", run_scene, cases(ctx.thorough), chunk=1,
                bound="9 columns (625 thorough) x 5 liquid water paths x 8 rain readings x 9 instrument sets x bright band x clutter x uneven grid")
