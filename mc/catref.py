"""Reference target classification and attenuation, written from the documented method.

Plain arrays, missing values are NaN, everything indexed [profile, gate].
"""

from __future__ import annotations

import atmoslib
import numpy as np
from scipy.ndimage import gaussian_filter
from scipy.stats import norm

T0 = 273.16
NAN = np.nan


def ok(a):
    return ~np.isnan(a)


def n_el(x, dist):
    return int(np.round(dist / np.median(np.diff(x))))


def runs(col):
    """[(first, last)] of True runs."""
    out, start = [], None
    for i, c in enumerate(list(col) + [False]):
        if c and start is None:
            start = i
        elif not c and start is not None:
            out.append((start, i - 1))
            start = None
    return out


def above(b):
    """At or above the lowest True of each profile."""
    return np.maximum.accumulate(b, axis=1)


def components(b):
    """4-connected components as lists of pixels."""
    nt, nh = b.shape
    seen = np.zeros(b.shape, bool)
    res = []
    for i, j in zip(*np.where(b)):
        if seen[i, j]:
            continue
        seen[i, j] = True
        stack, comp = [(i, j)], []
        while stack:
            a, c = stack.pop()
            comp.append((a, c))
            for p, q in ((a - 1, c), (a + 1, c), (a, c - 1), (a, c + 1)):
                if 0 <= p < nt and 0 <= q < nh and b[p, q] and not seen[p, q]:
                    seen[p, q] = True
                    stack.append((p, q))
        res.append(comp)
    return res


def grow(b, n=1):
    for _ in range(n):
        o = b.copy()
        o[1:] |= b[:-1]
        o[:-1] |= b[1:]
        o[:, 1:] |= b[:, :-1]
        o[:, :-1] |= b[:, 1:]
        b = o
    return b


class Obs:
    """Gridded input. 2-D: z v v_sigma beta tw (width ldr sldr). 1-D: lwp rate n wawa."""

    def __init__(self, time, height, altitude, *, model_type="ecmwf", radar_type="mira", **kw):
        self.time, self.height, self.altitude = time, height, altitude
        self.model_type, self.radar_type = model_type, radar_type
        for k in ("width", "ldr", "sldr", "lwp", "rate", "n", "wawa"):
            setattr(self, k, None)
        for k, v in kw.items():
            setattr(self, k, v)
        self.margin = []  # distances to decision thresholds


# --- rain and clutter ------------------------------------------------------------


def find_rain(o):
    nt, nh = o.z.shape
    has = ok(o.z).any(axis=0)
    gate = (int(np.argmax(has)) if has.any() else 0) + 3
    rain = np.zeros(nt, bool)
    if gate < nh:
        dep = o.ldr if o.ldr is not None else o.sldr
        for i in range(nt):
            z, v = o.z[i, gate], o.v[i, gate]
            rain[i] = ok(z) and z > 3 and v < 0
            if rain[i] and dep is not None:
                rain[i] = bool(dep[i, gate] < -15)
    if o.rate is not None:
        for i in range(nt):
            if ok(o.rate[i]) and ok(o.n[i]):
                rain[i] = o.rate[i] * 3600 / 1e-3 > 0.25 and o.n[i] > 30
    if o.wawa is not None:
        liquid = np.array([bool(57 <= w <= 68) for w in o.wawa])
    else:
        first = [j for j in range(nh) if ok(o.tw[:, j]).all()][0]
        liquid = o.tw[:, first] > T0 + 5
    return rain & liquid


def find_clutter(o, rain):
    c = np.zeros(o.z.shape, bool)
    for i in range(c.shape[0]):
        if not rain[i]:
            for j in range(min(10, c.shape[1])):
                c[i, j] = bool(abs(o.v[i, j]) < 0.05)
    return c


# --- melting layer and freezing region -------------------------------------------


def base_index(d, peak, dist, lim):
    lo = max(peak - dist, 0)
    seg = d[lo:peak]
    if len(seg) == 0:
        return None
    m = max(seg)
    for k, x in enumerate(seg):
        if x > m / lim:
            return lo + k
    return None


def top_index(d, peak, dist, lim, n):
    seg = d[peak : min(peak + dist, n)]
    if len(seg) == 0:
        return None
    m = min(seg)
    for k in range(len(seg) - 1, -1, -1):
        if seg[k] < m / lim:
            return peak + k + 1
    return None


def melting_from_ldr(ldr, dldr, v, z):
    """Gates of the melting layer, [] if the peak is not proper, None if no decision."""
    peak = int(np.argmax(np.where(ok(ldr), ldr, -np.inf)))
    top = top_index(dldr, peak, 10, 2, len(dldr))
    if top is None:
        return None
    base = base_index(dldr, peak, 10, 2)
    if base is None:
        return None
    if base >= len(ldr):
        return None
    good = (
        ldr[peak] - ldr[base] > 4 and ldr[peak] > -30 and z[base] > -25 and v[base] < -1.5
    )
    if not good:
        return []
    return list(range(base + (peak - base) // 2, top))


def melting_from_v(v, width, height):
    n = len(v) - 1
    count, c = [], 0
    for i in range(n):
        d = v[i + 1] - v[i]
        if d > 0:
            up = 1
        elif d < 0:
            up = 0
        else:
            up = None
        if up is None:
            if not (v < -2).any():
                return []
            raise Unclear
        c = c + 1 if up else 0
        count.append(c)
    if not count:
        return []
    top = int(np.argmax(count))
    zeros = [k for k in range(top) if count[k] == 0]
    if not zeros:
        return []
    base = zeros[-1]
    dh = height[top] - height[base]
    if width is not None:
        good = width[base] - width[top] > 0.2 and v[top] - v[base] > 0.5
    else:
        good = v[top] - v[base] > 2
    if good and 50 < dh < 1000 and v[base] < -2:
        return list(range(round(top - (top - base) / 2), top))
    return []


class Unclear(Exception):
    pass


def find_melting(o):
    nt, nh = o.z.shape
    raw = np.zeros((nt, nh), bool)
    lo, hi = (-8, 6) if "gdas1" in o.model_type else (-4, 3)
    for i in range(nt):
        inside = [j for j in range(nh) if lo + T0 < o.tw[i, j] < hi + T0]
        if not inside:
            continue
        a, b = inside[0], inside[-1] + 1
        if b - a <= 1:
            continue
        z, v = o.z[i, a:b], o.v[i, a:b]
        ldr = o.ldr[i, a:b] if o.ldr is not None else None
        if not ((ldr is not None and ok(ldr).sum() > 3) or ok(v).sum() > 3):
            continue
        res = None
        if ldr is not None and ok(ldr).any():
            d = o.ldr[i, a + 1 : b + 1] - o.ldr[i, a : min(b, nh - 1)]
            d = np.where(ok(d), d, 0.0)
            res = melting_from_ldr(ldr, d, v, z)
        elif ldr is not None:
            res = None
        if res is None:
            if ok(v).all():
                w = o.width[i, a:b] if o.width is not None else None
                res = melting_from_v(v, w, o.height[a:b])
            elif not ok(v).any():
                res = []
            else:
                res = melting_from_v_gaps(v, o.width[i, a:b] if o.width is not None else None, o.height[a:b])
        for k in res:
            raw[i, a + k] = True
    s = gaussian_filter(raw.astype(float), (2, 0.1))
    o.margin.append(np.abs(s - 0.2).min())
    return s > 0.2


def melting_from_v_gaps(v, width, height):
    if not (v[ok(v)] < -2).any():
        return []  # nothing falls fast enough
    raise Unclear


def find_freezing(o, melting):
    nt, nh = melting.shape
    h = o.height
    t0 = np.full(nt, 2 * h[-1] - h[-2])  # not reached: one gate above the highest
    for i in range(nt):
        cold = [j for j in range(nh) if o.tw[i, j] < T0]
        if not cold:
            continue
        j = cold[0]
        if j == 0:
            t0[i] = h[0]
        else:
            a, b = o.tw[i, j - 1], o.tw[i, j]
            t0[i] = h[j - 1] + (a - T0) / (a - b) * (h[j] - h[j - 1])
    mean = np.array([np.median(h[m]) if m.any() else NAN for m in melting])
    if not ok(mean).any() and (t0 <= h[0]).all():
        return np.ones((nt, nh), bool)
    alt = mean.copy()
    for k in (0, -1):
        if not ok(alt[k]):
            alt[k] = t0[k]
    win = int(np.round(240 / np.median(np.diff(o.time)) / 60))
    for k in range(nt - win):
        if not ok(mean[k : k + win]).any():
            alt[k + win // 2] = t0[k + win // 2]
    full = np.interp(o.time, o.time[ok(alt)], alt[ok(alt)]) - 1
    o.margin.append(0.1 * np.abs(h[None, :] - full[:, None]).min())
    return h[None, :] > full[:, None]


# --- droplets ---------------------------------------------------------------------


def fill_lwp(o):
    if o.lwp is None or not ok(o.lwp).any() or not np.nansum(o.lwp):
        return np.zeros(len(o.time))
    good = ok(o.lwp) & (o.lwp != 0)
    return np.interp(o.time, o.time[good], o.lwp[good])


def find_liquid(o):
    nt, nh = o.z.shape
    lwp = fill_lwp(o)
    h = o.height
    below, over = n_el(h, 200), n_el(h, 150)
    res = np.zeros((nt, nh), bool)
    for i in range(nt):
        raw = o.beta[i]
        b = np.where(ok(raw), raw, 0.0)
        d = raw[1:] - raw[:-1]
        d = np.where(ok(d), d, 0.0)
        for p in range(1, nh - 1):
            near = [b[min(max(p + s, 0), nh - 1)] for s in (-4, -3, -2, -1, 1, 2, 3, 4)]
            if not (b[p] > max(near) and b[p] > 1e-6):
                continue
            base = base_index(d, p, below, 4)
            top = top_index(d, p, over, 4, nh)
            if base is None or top is None:
                continue
            if (
                sum(b[base : top + 1] != 0) >= 3
                and h[top] - h[base] < 300
                and (b[p] - b[top]) / (h[top] - h[p]) > 1e-7
                and lwp[i] >= 0
                and h[p] - h[0] > 100
            ):
                res[i, base : top + 1] = True
    return res


def fix_tops(o, liquid, freezing):
    res = liquid.copy()
    nt, nh = liquid.shape
    extra = n_el(o.height, 500)
    for i in range(nt):
        for _, top in runs(liquid[i]):
            cold = [j for j in range(top, nh) if freezing[i, j]]
            end = min(nh - 1, cold[0] + extra) if cold else nh - 1
            missing = [j for j in range(top, end + 1) if not ok(o.z[i, j])]
            if missing and len(missing) < end + 1 - top:
                res[i, top : missing[0]] = True
    return res


# --- insects ------------------------------------------------------------------------


def prob(a, loc, scale, invert=False):
    p = norm.cdf(np.where(ok(a), a, 0.0), loc, scale)
    if invert:
        p = 1 - p
    return np.where(ok(a), p, 0.0)


def insect_probability(o):
    v = gaussian_filter(np.where(ok(o.v), o.v, 0.0), (5, 5))
    v = np.where(ok(o.v), v, NAN)
    width = prob(o.width, 1, 0.3, True) if o.width is not None else 1.0
    loose = prob(o.tw, 268, 2)
    others = prob(o.z, -20, 8, True) * prob(o.tw, 274, 1) * width * prob(v, -3.5, 2)
    if "mira" in o.radar_type.lower():
        others = others * prob(fill_lwp(o), 0.15, 0.05, True)[:, None]
    if o.ldr is not None:
        p = prob(o.ldr, -25, 5) * loose
    elif o.sldr is not None:
        s = prob(o.sldr, -25, 5)
        echo = np.where(ok(o.v_sigma), 0.0, prob(o.z, -30, 5, True))
        proxy = np.maximum(s, np.maximum(prob(o.v_sigma, 0.2, 0.15), echo))
        narrow = prob(o.width, 0.3, 0.1, True) if o.width is not None else 1.0
        p = proxy * narrow * prob(o.tw, 265, 3)
        high = s * loose
        p = np.where(high > 0.9, high, p)
    else:
        p = np.zeros(o.z.shape)
    return np.maximum(p, others), others


def find_insects(o, melting, liquid, rain):
    p, others = insect_probability(o)
    p = p.copy()
    p[liquid] = 0
    p[above(melting)] = 0
    p[above(liquid) & (others > 0)] = 0
    p[rain] = 0
    o.margin.append(np.abs(p - 0.8).min())
    return p > 0.8, p


# --- falling ------------------------------------------------------------------------


def find_falling(o, liquid, insect, clutter):
    nt, nh = liquid.shape
    f = ok(o.z) & ~clutter & ~insect
    for i in range(nt):
        for base, top in runs(liquid[i]):
            if top == nh - 1 or ok(o.z[i, top + 1]):
                continue
            zz = [x for x in o.z[i, base : top + 1] if ok(x)]
            if len(zz) > 1 and zz[-1] > zz[0]:
                f[i, base : top + 1] = False
    rng = o.height - o.altitude
    beta = ok(o.beta)
    for i in range(nt):
        for j in range(nh):
            if o.tw[i, j] < T0 - 15 and beta[i, j] and not liquid[i, j] and rng[j] >= 2000:
                if rng[j] < 4000 and beta[i, max(0, j - 5) : j + 1].sum() > 2:
                    continue
                f[i, j] = True
    return f


# --- everything ---------------------------------------------------------------------


def classify(o):
    rain = find_rain(o)
    clutter = find_clutter(o, rain)
    nt, nh = o.z.shape
    beta = ok(o.beta)
    melting = find_melting(o)
    freezing = find_freezing(o, melting)
    droplet = fix_tops(o, find_liquid(o), freezing)
    insect, p_insect = find_insects(o, melting, droplet, rain)
    falling = find_falling(o, droplet, insect, clutter)
    lwp = o.lwp if o.lwp is not None else np.full(nt, NAN)
    wet = np.array([not ok(x) or x > 0.005 for x in lwp])
    for _ in range(5):
        # melting between drizzle (or rain) and ice right above it
        kind = np.zeros((nt, nh), int)
        kind[falling & ~droplet] = 1
        kind[falling & ~droplet & ~freezing] = 2
        kind[droplet & freezing] = 1
        for i in range(nt):
            for j in range(nh - 1):
                if wet[i] and kind[i, j] == 2 and kind[i, j + 1] == 1:
                    melting[i, j + 1] = True
        up = above(melting) & insect
        falling |= up
        insect &= ~up
        before = insect.copy()
        for i, j in zip(*np.where(melting)):
            if falling[i, :j].sum() <= 5:
                # the gates below are converted only under deep enough precipitation
                continue
            for k in range(max(0, j - 5), j):
                if before[i, k]:
                    falling[i, k], insect[i, k] = True, False
            for k in range(max(0, i - 5), min(nt, i + 6)):
                if before[k, j] and j > 0:
                    falling[k, j - 1 : j + 2] = True
                    insect[k, j - 1 : j + 2] = False
    aerosol = beta & ~falling & ~droplet
    cold = droplet & (o.tw < T0 - 38)
    droplet = droplet & ~cold
    falling = falling | cold
    if o.ldr is not None:
        hit = (
            falling & freezing & ~droplet & ~melting & (np.where(ok(o.ldr), o.ldr, -99) > -13)
            & (o.tw > T0 - 10) & ~above(melting)
        )
        insect |= hit
        falling &= ~hit
        aerosol |= hit & beta
    big = np.zeros((nt, nh), bool)
    for c in components(falling):
        if len(c) >= 100:
            big[tuple(np.array(c).T)] = True
    hit = insect & freezing & grow(big, 2)
    falling |= hit
    insect &= ~hit
    aerosol &= ~hit
    small = np.zeros((nt, nh), bool)
    for c in components(falling):
        if len(c) <= 10:
            small[tuple(np.array(c).T)] = True
    falling &= ~small
    insect |= small & ~freezing
    aerosol |= small & beta
    false = clutter & grow(droplet | falling)
    clutter = clutter & ~false
    falling = falling | false
    bits = {"droplet": droplet, "falling": falling, "freezing": freezing, "melting": melting,
            "aerosol": aerosol, "insect": insect}
    return bits, rain, clutter, p_insect


# --- attenuation --------------------------------------------------------------------


def cum2(spec, dz):
    return 2 * np.cumsum(spec * dz / 1000.0, axis=1)


def attenuation(o, bits, rain, dense, freq):
    """dense: temperature, pressure, gas, sat, liq (dB km-1 and dB km-1 / (g m-3))."""
    nt, nh = o.z.shape
    agl = o.height - o.altitude
    dz = np.diff(agl, prepend=0)
    droplet, freezing = bits["droplet"], bits["freezing"]
    gas = cum2(np.where(droplet, dense["sat"], dense["gas"]), dz)
    out = {"gas": gas, "gas_error": 0.1 * gas}

    # liquid: adiabatic layers scaled to lwp
    grad = np.zeros((nt, nh))
    wc = np.zeros((nt, nh))
    for i in range(nt):
        for a, b in runs(droplet[i]):
            g = float(atmoslib.adiabatic_lwc_gradient(
                np.array([dense["temperature"][i, a]]), np.array([dense["pressure"][i, a]]))[0])
            grad[i, a : b + 1] = g
            wc[i, a : b + 1] = g * np.cumsum(dz[a : b + 1])
    lwp = o.lwp if o.lwp is not None else np.full(nt, NAN)
    lwp_err = o.lwp_error if o.lwp is not None else np.full(nt, NAN)
    with np.errstate(all="ignore"):
        scaled = wc * (np.where(lwp < 0, 0, lwp) / (wc * dz).sum(1))[:, None]
        scaled_e = grad * (lwp_err / (grad * dz).sum(1))[:, None]
    liq = cum2(dense["liq"] * scaled * 1000, dz)
    liq_e = cum2(dense["liq"] * scaled_e * 1000, dz)
    att_liq = above(droplet)
    att_liq[rain] = False
    out["liquid"] = np.where(att_liq, liq, NAN)
    out["liquid_error"] = np.where(att_liq, liq_e, NAN)
    out["att_liquid"] = att_liq
    out["unc_liquid"] = att_liq & np.isnan(out["liquid"])

    # rain
    att_rain = np.repeat(rain[:, None], nh, 1)
    out["att_rain"] = att_rain
    if o.rate is None:
        out["rain"] = np.full((nt, nh), NAN)
        out["unc_rain"] = att_rain.copy()
    else:
        amount = np.full((nt, nh), NAN)
        for i in range(nt):
            if rain[i] and ok(o.rate[i]):
                k = float(atmoslib.rain_specific_attenuation(np.array([o.rate[i] * 3600 / 1e-3]), freq)[0])
                a = cum2(np.full((1, nh), k), dz)[0]
                warm = ~freezing[i]
                last = NAN
                for j in range(nh):
                    if warm[j]:
                        last = a[j]
                    amount[i, j] = last
        out["rain"] = np.where(amount == 0, NAN, amount)
        out["unc_rain"] = att_rain & ~ok(o.rate)[:, None]

    # melting layer
    region = np.zeros((nt, nh), bool)
    if o.rate is None:
        region = freezing & above(bits["melting"]) & rain[:, None]
        out["melting"] = np.full((nt, nh), NAN)
        out["unc_melting"] = region
    else:
        a, b = (0.97, 0.61) if freq < 40 else (2.9, 0.42)
        amount = np.full((nt, nh), NAN)
        for i in range(nt):
            if rain[i]:
                if o.rate[i] == 0:
                    continue
                region[i] = freezing[i]
                amount[i, freezing[i]] = a * (o.rate[i] * 3600 / 1e-3) ** b
        out["melting"] = amount
        out["unc_melting"] = region & np.isnan(amount)
        out["melting_error"] = amount * (0.2 if freq < 40 else 0.1)
    out["att_melting"] = region
    out["rain_error"] = 0.2 * out["rain"]
    out.setdefault("melting_error", np.full((nt, nh), NAN))
    return out
