"""C14: categorize classifies every pixel by the documented rules, from files to bits.

Every case is a whole categorize run on small radar / lidar / model / mwr / disdrometer files.
A run holds many profiles; every profile (or block of profiles) is one enumerated pattern.
"""

from __future__ import annotations

import itertools
import os

import numpy as np
from numpy import ma

from .. import catfile, catgen, catref
from ..core import Out, Violation, check

LEVEL = "model_checking"
NAN = np.nan
ALT = 100.0
NH = 24

# temperature profiles: (height above ground, T in K)
T0_WET = 274.9  # at 80 % the wet bulb is near 0 C
TEMPS = {
    "warm0": [(0, 290.0), (300, 287.0), (700, 280.0), (1500, 264.0)],  # 0 C near 1045 m
    "mid0": [(0, 281.0), (500, 274.6), (700, 271.5), (1500, 250.0)],  # 0 C near 600 m
    "cold": [(0, 268.0), (1500, 250.0)],
    "verycold": [(0, 250.0), (600, 236.0), (900, 234.0), (1500, 225.0)],
    "hot": [(0, 300.0), (1500, 290.0)],
    "inversion": [(0, 270.0), (200, 276.0), (500, 276.0), (800, 270.0), (1500, 260.0)],
}


def f4(a):
    return np.asarray(a, np.float32).astype(float)


def blank(nh=NH):
    p = {k: np.full(nh, NAN) for k in ("z", "v", "w", "ldr", "vs", "beta")}
    p["beta"][0] = 1e-7  # a profile without any lidar signal is not used at all
    p |= {"lwp": 0.05, "rate": 0.0, "n": 0.0, "wawa": 0.0}
    return p


def echo(p, gates, z, v=-1.0, w=0.3, ldr=-28.0, vs=0.1):
    g = list(gates)
    p["z"][g] = z
    p["v"][g] = v
    p["w"][g] = w
    p["ldr"][g] = ldr
    p["vs"][g] = vs
    return p


def execute(case, tmp, profiles, *, rng=None, temp="mid0", times=None, opts=None):
    """Writes the files, runs the real code, returns (output, gridded observation, dense model)."""
    import atmoslib

    o = {"ldr": True, "sldr": False, "width": True, "mwr": True, "dis": True, "wawa": False,
         "freq": 35.5, "model": "ecmwf", "source": catgen.SOURCE["radar"]} | (opts or {})
    nt = len(profiles)
    rng = np.asarray(rng if rng is not None else 50.0 * np.arange(1, NH + 1))
    nh = len(rng)
    idx = np.asarray(times if times is not None else 600 + np.arange(nt))
    t = catgen.GRID[idx]
    a = {k: np.array([p[k] for p in profiles], float) for k in ("z", "v", "w", "ldr", "vs", "beta")}
    lwp, rate, n, wawa = (np.array([p[k] for p in profiles], float) for k in ("lwp", "rate", "n", "wawa"))
    ts = t + 3 / 3600  # other instruments are read a bit later: no ties in time
    t2 = np.sort(np.concatenate([t - 1 / 480, t + 1 / 480]))

    def twice(x):
        return ma.masked_invalid(np.repeat(x, 2, axis=0))

    vs = np.where(np.isnan(a["vs"]), 0, a["vs"])
    v2 = np.repeat(a["v"], 2, axis=0)
    v2[0::2] -= vs
    v2[1::2] += vs
    fields = {"Zh": twice(a["z"]), "v": ma.masked_invalid(v2)}
    if o["width"]:
        fields["width"] = twice(a["w"])
    if o["ldr"]:
        fields["ldr"] = twice(a["ldr"])
    if o["sldr"]:
        fields["sldr"] = twice(a["ldr"])
    f = {
        "radar": catgen.radar(os.path.join(tmp, "radar.nc"), t2, rng, fields, altitude=ALT,
                              freq=o["freq"], attrs={"source": o["source"]}),
        # one more lidar profile at both ends (outside the radar's time)
        "lidar": catgen.lidar(
            os.path.join(tmp, "lidar.nc"), np.concatenate([[t[0] - 1 / 240], t, [t[-1] + 1 / 240]]), rng,
            ma.masked_invalid(a["beta"][[0, *range(nt), -1]]), altitude=ALT),
    }
    th, tv = np.array(TEMPS[temp]).T
    mh = np.unique(np.concatenate([th, np.arange(0, rng[-1] + 500, 250.0)]))
    T = np.interp(mh, th, tv)
    mf = catgen.model_fields(np.tile(T, (3, 1)), mh, rh=0.8)
    f["model"] = catgen.model(os.path.join(tmp, f"20200307_{o['model']}.nc"), [0.0, 12.0, 24.0], mh, mf)
    if o["mwr"]:
        f["mwr"] = catgen.mwr(os.path.join(tmp, "mwr.nc"), ts, ma.masked_invalid(lwp))
    if o["dis"]:
        f["disdrometer"] = catgen.disdrometer(
            os.path.join(tmp, "dis.nc"), ts, ma.masked_invalid(rate), ma.masked_invalid(n),
            ma.masked_invalid(wawa) if o["wawa"] else None)
    out = os.path.join(tmp, "categorize.nc")
    catgen.generate(f, out)
    got = catgen.load(out)
    h = rng + ALT
    mid = h - np.diff(h, prepend=ALT) / 2

    def dense(x, at):
        return np.tile(np.interp(at, mh + ALT, np.ravel(x)), (nt, 1))

    T2, P2, Q2 = (dense(mf[k][0], h) for k in ("temperature", "pressure", "q"))
    vp = atmoslib.vapor_pressure(mf["pressure"][0], mf["q"][0])
    svp = atmoslib.saturation_vapor_pressure(T, phase="mixed")
    d = {
        "temperature": T2, "pressure": P2,
        "gas": dense(atmoslib.gas_specific_attenuation(T, mf["pressure"][0], vp, o["freq"]), mid),
        "sat": dense(atmoslib.gas_specific_attenuation(T, mf["pressure"][0], svp, o["freq"]), mid),
        "liq": dense(atmoslib.liquid_water_specific_attenuation(T, o["freq"]), mid),
    }
    bad = np.isnan(a["z"]) | np.isnan(a["v"])
    if o["width"]:
        bad |= np.isnan(a["w"])
    for k in ("z", "v", "w", "ldr", "vs"):
        a[k] = np.where(bad, NAN, a[k])
    # longest gap that interpolation of lwp and rain may bridge is longer than our profile spacing
    def gap_fill(x, limit):
        good = ~np.isnan(x)
        if not good.any():
            return x
        y = np.interp(t, ts[good], x[good])
        dist = np.abs(t[:, None] - ts[None, good]).min(axis=1)
        return np.where(dist > limit / 60 , NAN, y)

    def near(x):
        good = ~np.isnan(x)
        if not good.any():
            return x
        k = np.abs(t[:, None] - ts[None, good]).argmin(axis=1)
        dist = np.abs(t[:, None] - ts[None, good]).min(axis=1)
        return np.where(dist > 1 / 60, NAN, x[good][k])

    lw = gap_fill(lwp, 2)
    obs = catref.Obs(
        t, h, ALT, model_type=o["model"], radar_type=o["source"],
        z=f4(a["z"]), v=f4(a["v"]), v_sigma=np.where(a["vs"] > 0, a["vs"], NAN), beta=a["beta"],
        tw=atmoslib.wet_bulb_temperature(T2, P2, Q2),
        width=f4(a["w"]) if o["width"] else None,
        ldr=f4(a["ldr"]) if o["ldr"] else None,
        sldr=f4(a["ldr"]) if o["sldr"] else None,
        lwp=lw if o["mwr"] else None,
        rate=gap_fill(rate, 1) if o["dis"] else None,
        n=gap_fill(n, 1) if o["dis"] else None,
        wawa=near(wawa) if o["dis"] and o["wawa"] else None,
    )
    obs.lwp_error = gap_fill(np.sqrt((0.25 * lwp) ** 2 + 0.02**2), 2) if o["mwr"] else None
    obs.opts, obs.rng = o, rng
    check(got["time"].shape == (nt,) and np.allclose(got["time"], t, atol=1e-6),
          lambda: f"{got['time'].shape[0]} profiles written, {nt} are covered by radar, lidar and model")
    check(got["height"].shape == (nh,) and np.allclose(got["height"], h, atol=1e-2), "height is not the radar grid")
    return got, obs, d


class TooClose(Exception):
    """A continuous criterion is so near its threshold that rounding decides."""


def compare(case, got, obs, d, labels):
    """Compares every pixel of category_bits, quality_bits and rain_detected with the reference."""
    try:
        bits, rain, clutter, p = catref.classify(obs)
    except catref.Unclear as e:
        raise RuntimeError("the reference does not decide this scene") from e
    if min(obs.margin) < 2e-6:
        raise TooClose(f"scene too close to a threshold ({obs.margin})")
    word = got["category_bits"]
    check(not ma.is_masked(word), "category bits missing")
    nt, nh = obs.z.shape

    def where(i, j):
        return (f"profile {i} ({labels[i]}) gate {j} ({obs.height[j]:.0f} m, Tw {obs.tw[i, j]:.2f} K): ")

    for k, name in enumerate(catfile.BITS):
        g = (word.data >> k) & 1 == 1
        bad = np.argwhere(g != bits[name])
        if len(bad):
            i, j = bad[0]
            raise Violation(
                where(i, j) + f"{name} is {bool(g[i, j])}, expected {bool(bits[name][i, j])} "
                f"({len(bad)} pixels differ; z={obs.z[i, j]:.1f} v={obs.v[i, j]:.2f} beta={obs.beta[i, j]:.1e} "
                f"expected bits {[n for n in bits if bits[n][i, j]]}, got word {int(word[i, j])})"
            )
    check((word.data >> len(catfile.BITS) == 0).all(), "undefined category bits set")
    r = got["rain_detected"]
    for i in range(nt):
        check(not ma.is_masked(r[i]) and bool(r[i]) == bool(rain[i]),
              lambda i=i: where(i, 0) + f"rain_detected {r[i]}, expected {bool(rain[i])}")
    a = catref.attenuation(obs, bits, rain, d, obs.opts["freq"])
    q = got["quality_bits"]
    check(not ma.is_masked(q), "quality bits missing")
    want = {
        "radar": catref.ok(obs.z), "lidar": catref.ok(obs.beta), "clutter": clutter,
        "molecular": np.zeros((nt, nh), bool),
    }
    for n, m in (("liquid", "liquid"), ("rain", "rain"), ("melting", "melting")):
        want["att_" + n] = a["att_" + m]
        want["cor_" + n] = a["att_" + m] & ~a["unc_" + m]
    for k, name in enumerate(catfile.QBITS):
        g = (q.data >> k) & 1 == 1
        bad = np.argwhere(g != want[name])
        if len(bad):
            i, j = bad[0]
            raise Violation(where(i, j) + f"quality bit {name} is {bool(g[i, j])}, expected {bool(want[name][i, j])} "
                            f"({len(bad)} pixels differ)")
    check((q.data >> len(catfile.QBITS) == 0).all(), "undefined quality bits set")
    return bits, rain, clutter, p, a


def states_of(bits, want_rain, got):
    w = got["category_bits"].data
    q = got["quality_bits"].data
    return {f"{w[i].tolist()}{q[i].tolist()}" for i in range(len(w))}


def run_scene(case, tmp) -> Out:
    for nudge in range(5):
        profiles, labels, kw = build(case)
        for q in profiles:
            q["z"] += 0.0007 * nudge
        got, obs, d = execute(case, tmp, profiles, **kw)
        try:
            bits, rain, clutter, p, a = compare(case, got, obs, d, labels)
            break
        except TooClose:
            if nudge == 4:
                raise
    ip = got["insect_prob"]
    ref = np.where(p == 0, NAN, p)
    g = ma.filled(ip.astype(float), NAN)
    bad = np.argwhere((np.isnan(g) != np.isnan(ref)) | (np.abs(g - ref) > 1e-4))
    if len(bad):
        i, j = bad[0]
        raise Violation(f"profile {i} ({labels[i]}) gate {j}: insect probability {g[i, j]}, expected {ref[i, j]}")
    return Out(states=states_of(bits, rain, got), transitions=obs.z.size * 16, traces=len(profiles))


# --- scenes ---------------------------------------------------------------------------

# what may fill a slot of four gates
def slot(p, kind, g):
    if kind == "clear":
        return
    if kind == "ice":
        echo(p, g, -15.0, v=-0.9 - 0.01 * np.array(g), ldr=-27.0)
        p["beta"][list(g)] = 5e-7
    elif kind == "echo":  # radar only
        echo(p, g, -12.0, v=-1.1 + 0.01 * np.array(g), ldr=-25.0)
    elif kind == "aerosol":  # lidar only
        p["beta"][list(g)] = 3e-7
    elif kind == "liquid":  # lidar peak without radar
        p["beta"][list(g)] = [2e-6, 2e-5, 8e-6, NAN][: len(g)]
    elif kind == "liquid_echo":  # lidar peak inside a radar echo
        p["beta"][list(g)] = [2e-6, 2e-5, 8e-6, 1e-6][: len(g)]
        echo(p, g, [-30.0, -28.0, -26.0, -24.0], v=-0.4 - 0.01 * np.array(g), ldr=NAN)
    elif kind == "liquid_half":  # echo only in the lower half and decreasing upwards
        p["beta"][list(g)] = [2e-6, 2e-5, 8e-6, 1e-6][: len(g)]
        echo(p, g[:3], [-24.0, -26.0, -28.0], v=-0.4 - 0.01 * np.array(g[:3]), ldr=NAN)
    elif kind == "insect":
        echo(p, g, -38.0, v=0.4 + 0.02 * np.array(g), w=0.12, ldr=-8.0, vs=0.3)
    elif kind == "weak":  # weak echo without ldr
        echo(p, g, -42.0, v=0.3 + 0.02 * np.array(g), w=0.1, ldr=NAN, vs=0.2)
    elif kind == "still":  # almost no velocity
        echo(p, g, -20.0, v=[0.01, -0.02, 0.03, 0.2][: len(g)], ldr=-20.0)
    elif kind == "hildr":
        echo(p, g, -5.0, v=-1.0 - 0.01 * np.array(g), w=0.9, ldr=-10.0)
    elif kind == "heavy":
        echo(p, g, 12.0, v=-1.9 + 0.004 * np.array(g), w=1.0, ldr=-28.0)
    elif kind == "broken":  # incomplete radar pixels
        echo(p, g, -10.0, v=[-1.0, NAN, -1.2, -1.3][: len(g)], w=[0.3, 0.3, NAN, 0.3][: len(g)])
    else:
        raise KeyError(kind)


KINDS = ("clear", "ice", "echo", "aerosol", "liquid", "liquid_echo", "liquid_half", "insect", "weak",
         "still", "hildr", "heavy", "broken")


def build(case):
    kind = case["kind"]
    return globals()["build_" + kind](case)


def build_slots(case):
    """Columns of slots of four gates; blocks of a few equal profiles."""
    profiles, labels = [], []
    for col in case["columns"]:
        for _ in range(case.get("width", 3)):
            p = blank()
            start = case.get("start", 0)
            for s, k in enumerate(col):
                slot(p, k, range(start + 4 * s, start + 4 * s + 4))
            p["lwp"] = case.get("lwp", 0.05)
            profiles.append(p)
            labels.append("/".join(col))
        for _ in range(case.get("gap", 2)):
            profiles.append(blank())
            labels.append("blank")
    return profiles, labels, {"temp": case["temp"], "opts": case.get("opts")}


def build_peaks(case):
    """Lidar peaks of every shape: one profile each."""
    profiles, labels = [], []
    for pos, low, high, amp, lwp, z in case["shapes"]:
        p = blank()
        b = p["beta"]
        b[:] = 2e-8
        peak = amp
        lows = {"steep": [0.02], "two": [0.5, 0.02], "slow": [0.8, 0.6, 0.4, 0.2, 0.05], "gap": [NAN], "gap2": [0.4, NAN]}[low]
        highs = {"steep": [0.02], "two": [0.5, 0.02], "slow": [0.9, 0.7, 0.5, 0.3, 0.1], "gap": [NAN], "gap2": [0.4, NAN], "end": [NAN] * NH}[high]
        b[pos] = peak
        for s, x in enumerate(lows):
            if 0 <= pos - 1 - s:
                b[pos - 1 - s] = peak * x
        for s, x in enumerate(highs):
            if pos + 1 + s < NH:
                b[pos + 1 + s] = peak * x
        p["lwp"] = lwp
        if z == "through":
            echo(p, range(0, NH), -20.0 + 0.1 * np.arange(NH), v=-1.0 - 0.01 * np.arange(NH))
        elif z == "above":
            g = range(max(0, pos - 1), min(NH, pos + 5))
            echo(p, g, -20.0, v=-1.0 - 0.01 * np.array(g))
        elif z == "far":
            g = range(min(NH - 1, pos + 2), NH)
            echo(p, g, -20.0, v=-1.0 - 0.01 * np.array(g))
        profiles.append(p)
        labels.append(f"peak gate {pos} below {low} above {high} amp {amp} lwp {lwp} radar {z}")
    return profiles, labels, {"temp": case["temp"], "opts": {"ldr": False, "dis": False}}


def build_melting(case):
    """Bright bands: ldr peaks and velocity steps; blocks so that smoothing keeps or drops them."""
    profiles, labels = [], []
    for width, pos, ldrpeak, base_ldr, vlow, vhigh, zlow, has_ldr in case["bands"]:
        for _ in range(width):
            p = blank()
            g = np.arange(0, 22)
            v = np.where(g < pos, vlow, vhigh) - 0.013 * g
            l = np.full(len(g), base_ldr) - 0.01 * g
            l[pos] = ldrpeak
            if pos + 1 < len(g):
                l[pos + 1] = (ldrpeak + base_ldr) / 2
            z = np.where(g < pos, zlow, zlow - 4)
            w = np.where(g < pos, 0.9, 0.3)
            echo(p, g, z, v=v, w=w, ldr=l if has_ldr else NAN)
            profiles.append(p)
            labels.append(f"{width} profiles, band gate {pos} ldr {base_ldr}->{ldrpeak} v {vhigh}->{vlow} z {zlow} ldr:{has_ldr}")
        for _ in range(6):
            p = blank()
            if case["between"] == "insects":
                slot(p, "insect", range(6, 14))
            profiles.append(p)
            labels.append("between")
    if case["wrap"]:  # insects at both ends of the day
        for k in list(range(0, 4)) + list(range(len(profiles) - 4, len(profiles))):
            profiles[k] = blank()
            slot(profiles[k], "insect", range(2, 14))
            labels[k] = "insects at the end of the day"
    return profiles, labels, {"temp": case["temp"], "opts": case["opts"]}


def build_rain(case):
    profiles, labels = [], []
    first = case["first"]
    for z, v, ldr, (rate, n), wawa in case["points"]:
        for _ in range(4):
            p = blank()
            g = np.arange(first, min(NH, first + 6))
            if case["all_echo"]:
                g = np.arange(first, NH)
            echo(p, g, -10.0, v=-1.0 - 0.01 * g)
            k = first + 3
            if k < NH:
                p["z"][k], p["v"][k], p["ldr"][k] = z, v, ldr
            p["rate"], p["n"], p["wawa"] = rate, n, wawa
            profiles.append(p)
            labels.append(f"z {z} v {v} ldr {ldr} rate {rate} n {n} wawa {wawa} first gate {first}")
    return profiles, labels, {"temp": case["temp"], "opts": case["opts"], "times": case.get("times")}


def build_blobs(case):
    """Isolated falling regions of chosen sizes (and insects beside big ones)."""
    nt = 120
    profiles = [blank() for _ in range(nt)]
    labels = [f"size {case['size']}"] * nt
    t0, g0 = case["at"]
    cells = []
    width = case["w"]
    for k in range(case["size"]):
        cells.append((t0 + k % width, g0 + k // width))
    for i, j in cells:
        if j < NH:
            echo(profiles[i], [j], -12.0, v=-1.0 - 0.01 * j - 0.003 * i, ldr=-25.0)
            if case["lidar"]:
                profiles[i]["beta"][j] = 4e-7
    if case["bridge"]:  # diagonal neighbour does not connect
        i, j = cells[-1]
        if j + 1 < NH:
            for k in range(12):
                echo(profiles[i + 1 + k], [j + 1], -12.0, v=-1.1 - 0.001 * k)
    if case["insects"]:
        top = max(j for _, j in cells)
        for i in range(t0, t0 + width):
            j = top + case["insects"]
            if j < NH and np.isnan(profiles[i]["z"][j]):
                slot(profiles[i], "insect", [j])
                profiles[i]["beta"][j] = 2e-7
    return profiles, labels, {"temp": case["temp"], "opts": {"dis": False}}


def build_coldlidar(case):
    """Lidar-only columns on a coarse grid: which of them count as ice."""
    rng = np.arange(1, 21) * 300.0
    profiles, labels = [], []
    for pat in case["patterns"]:
        p = blank(20)
        for j, c in enumerate(pat):
            if c == "1":
                p["beta"][case["start"] + j] = 4e-7
        profiles.append(p)
        labels.append(f"lidar gates {pat} from {case['start']}")
        # keep single profiles apart so that the size filter sees what is in one profile
        for _ in range(11 if case["repeat"] else 0):
            profiles.append({k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in p.items()})
            labels.append(labels[-1])
        profiles.append(blank(20))
        labels.append("blank")
    return profiles, labels, {"temp": case["temp"], "rng": rng}


LEVELS = [f"level{h}" for h in (-40, -10, 5, 20, 40, 56, 97, 1130, 1155, 1175, 1215)]
for _h in LEVELS:
    TEMPS[_h] = [(h, T0_WET - 0.01 * (h - int(_h[5:]))) for h in range(0, 1501, 250)]
TEMPS["deep"] = [(0, 285.0), (1500, 274.0), (2500, 256.0), (6500, 230.0)]
TEMPS["deepcold"] = [(0, 262.0), (1800, 255.0), (6500, 225.0)]


def chunks(x, n):
    return [x[i : i + n] for i in range(0, len(x), n)]


def cases(thorough):
    slots, peaks, melt, rain, blobs, cold = [], [], [], [], [], []
    # slots: all pairs of kinds in the lowest slots x third kind from a short list
    third = ("clear", "ice", "heavy", "liquid") if thorough else ("clear", "ice")
    cols = [list(c) for c in itertools.product(KINDS, KINDS, third)]
    for temp in ("mid0", "warm0", "cold", "verycold", "hot", "inversion"):
        for opt in ({}, {"ldr": False, "sldr": True}, {"width": False, "dis": False}) if temp in ("mid0",) or thorough else ({},):
            for start in (0, 8) if thorough else (0,) if temp != "mid0" else (0, 7):
                for part in chunks(cols, 56):
                    slots.append({"kind": "slots", "columns": part, "temp": temp, "opts": opt, "start": start})
    # the freezing level in and around the lowest and highest gates
    for temp in LEVELS:
        for opt in ({}, {"dis": False}):
            part = [list(c) for c in itertools.product(("clear", "heavy", "ice", "liquid"), ("clear", "ice"), ("clear", "heavy"))]
            slots.append({"kind": "slots", "columns": part, "temp": temp, "opts": opt, "start": 0})
    deep = [list(c) for c in itertools.product(("clear", "liquid_echo", "heavy", "insect", "ice"), repeat=5)]
    if not thorough:
        deep = [c for c in deep if c.count("clear") <= 2 and c[0] != c[1]]
    for temp in ("mid0", "warm0") if thorough else ("mid0",):
        for part in chunks(deep, 56):
            slots.append({"kind": "slots", "columns": part, "temp": temp, "lwp": 0.2,
                          "opts": {"mwr": True, "source": "BASTA test", "freq": 94.0} if False else {}})
    # lidar peaks
    pos = range(1, NH - 1) if thorough else (1, 2, 3, 5, 8, 14, 19, 21, 22)
    shapes = list(itertools.product(
        pos, ("steep", "two", "slow", "gap", "gap2"), ("steep", "two", "slow", "gap", "gap2", "end"),
        (9e-7, 2e-6, 3e-5), (0.1, -0.01, NAN), ("none", "through", "above", "far")))
    if not thorough:
        shapes = [s for s in shapes if s[4] == 0.1 or (s[1] == "two" and s[2] == "two")]
        shapes = [s for s in shapes if s[3] != 9e-7 or s[5] == "none"]
    for temp in ("mid0", "cold", "hot"):
        for part in chunks(shapes, 280):
            if temp == "mid0" or thorough:
                peaks.append({"kind": "peaks", "shapes": part, "temp": temp})
    if not thorough:
        few = [s for s in shapes if s[0] in (5, 19) and s[3] == 3e-5]
        peaks += [{"kind": "peaks", "shapes": part, "temp": t} for t in ("cold", "hot") for part in chunks(few, 280)]
    # melting layers
    bands = list(itertools.product(
        (1, 3, 8), (8, 10, 11, 12), (-15.0, -26.0, -31.5), (-33.0, -19.5), (-4.0, -1.2), (-0.9,),
        (5.0, -27.0), (True, False)))
    # without ldr its peak does not matter
    bands = [b for b in bands if b[7] or (b[2], b[3]) == (-15.0, -33.0)]
    for temp in ("mid0", "warm0", "cold"):
        for opts in ({"dis": False}, {"dis": False, "width": False, "ldr": False}, {"dis": False, "model": "gdas1"}):
            for between in ("clear", "insects"):
                for wrap in (False, True):
                    if not thorough and (wrap != (between == "insects") or (temp == "cold" and opts.get("model"))):
                        continue
                    for part in chunks(bands, 28):
                        melt.append({"kind": "melting", "bands": part, "temp": temp, "opts": opts,
                                     "between": between, "wrap": wrap})
    # rain
    MM = 1 / 3.6e6
    pts = list(itertools.product((2.9, 3.1, 20.0), (-1.0, 0.2), (-15.1, -14.9, NAN),
                                 ((0.0, 0.0), (0.24 * MM, 100.0), (0.26 * MM, 31.0), (0.26 * MM, 29.0), (5 * MM, 500.0), (NAN, NAN), (5 * MM, NAN)),
                                 (0.0, 56.0, 57.0, 68.0, 69.0)))
    for temp in ("warm0", "mid0", "cold") :
        for opts in ({}, {"wawa": True}, {"dis": False}, {"ldr": False, "sldr": True}, {"freq": 94.0}, {"ldr": False}):
            sub = [q for q in pts if opts.get("wawa") or q[4] == 0.0]
            if not opts.get("dis", True):
                sub = [q for q in sub if q[3] == (0.0, 0.0)]
            if not opts.get("ldr", True) and not opts.get("sldr"):
                sub = [q for q in sub if q[2] == -15.1]
            if opts.get("wawa") and not thorough:
                sub = [q for q in sub if q[1] == -1.0 and q[2] == -15.1]
            for first in (0, 2) if not thorough else (0, 2, 5):
                for all_echo in (False, True):
                    for part in chunks(sub, 70):
                        k = 4 * len(part)
                        rain.append({"kind": "rain", "points": part, "temp": temp, "opts": opts, "first": first,
                                     "all_echo": all_echo, "times": [100 + 4 * i for i in range(k)]})
    for first in (NH - 6, NH - 4, NH - 3, NH - 1):
        for opts in ({"dis": False}, {"ldr": False, "dis": False}):
            rain.append({"kind": "rain", "points": [(20.0, -1.0, -20.0, (0.0, 0.0), 0.0)] * 20, "temp": "warm0",
                         "opts": opts, "first": first, "all_echo": True})
    # regions
    for size, (at, w), lidar, bridge, ins, temp in itertools.product(
            (1, 9, 10, 11, 12, 99, 100, 104), (((10, 3), 4), ((0, 0), 5), ((50, 14), 10), ((100, 16), 20)), (False, True),
            (False, True), (0, 1, 2, 3), ("cold", "warm0", "mid0")):
        if at[0] + w + 12 > 120 and bridge:
            continue
        if size < 99 and ins > 1:
            continue
        if size > w * (NH - at[1]):
            continue
        if not thorough and lidar != bridge and size not in (10, 11):
            continue
        if not thorough and temp == "mid0" and size not in (10, 11, 99, 100):
            continue
        if not thorough and ins == 3 and size != 100:
            continue
        blobs.append({"kind": "blobs", "size": size, "at": at, "w": w, "lidar": lidar, "bridge": bridge,
                      "insects": ins, "temp": temp})
    # lidar ice
    n = 10 if thorough else 8
    pats = ["".join(c) for c in itertools.product("01", repeat=n)]
    for temp in ("deep", "deepcold"):
        for start in (4, 6, 9) if thorough else (5, 8):
            for rep in (True, False):
                for part in chunks(pats, 22 if rep else 130):
                    cold.append({"kind": "coldlidar", "patterns": part, "start": start, "temp": temp, "repeat": rep})
    return slots, peaks, melt, rain, blobs, cold


def run(ctx):
    slots, peaks, melt, rain, blobs, cold = cases(ctx.thorough)
    ctx.assume("scenes are kept away from ties and thresholds by at least 2e-6 (insect probability, smoothed melting layer)")
    ctx.assume("Voodoo (RPG level 0) liquid detection is not available offline and is left out")
    ctx.explore("rain", run_scene, rain, chunk=1,
                bound="rain criteria: echo, velocity, ldr/sldr, disdrometer rate and count, WaWa, first echo gate, 0 C level")
    ctx.explore("columns", run_scene, slots, chunk=1,
                bound="all columns of 3 slots over 13 kinds of target (third slot restricted), 5 slots over 5 kinds; 6 temperature profiles")
    ctx.explore("liquid", run_scene, peaks, chunk=1,
                bound="lidar peaks: position x flank shapes x amplitude x liquid water path x radar echo")
    ctx.explore("melting", run_scene, melt, chunk=1,
                bound="bright bands: duration x height x ldr peak and background x velocity step x echo x ldr available")
    ctx.explore("regions", run_scene, blobs, chunk=2,
                bound="connected regions around the size limits 10 and 100, edges of the grid, neighbours, insects nearby")
    ctx.explore("lidar_ice", run_scene, cold, chunk=1, bound="all lidar-only gate patterns of 8 gates (10 thorough)")
