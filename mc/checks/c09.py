"""C09: every combination of categorize bits gets the documented target and status."""

from __future__ import annotations

import itertools
import os

import numpy as np
from numpy import ma

from .. import catfile, ncio
from ..catfile import BITS, QBITS
from ..core import Out, check, digest

LEVEL = "model_checking"


# ---- reference, one pixel at a time ---------------------------------------------------


def b(word, names):
    return {n: bool(word >> i & 1) for i, n in enumerate(names)}


def ref_target(c, q):
    c, q = b(c, BITS), b(q, QBITS)
    if q["clutter"] and not c["aerosol"]:
        return 0
    if c["aerosol"] and c["insect"] and not q["clutter"]:
        return 10
    if c["insect"] and not q["clutter"]:
        return 9
    if c["aerosol"]:
        return 8
    if c["melting"]:
        return 7 if c["droplet"] else 6
    if c["falling"]:
        if c["freezing"]:
            return 5 if c["droplet"] else 4
        return 3 if c["droplet"] else 2
    return 1 if c["droplet"] else 0


def ref_att(q):
    att = q["att_liquid"] or q["att_rain"] or q["att_melting"]
    cor = att and all(
        q["cor_" + k] or not q["att_" + k] for k in ("liquid", "rain", "melting")
    )
    return att, cor


def ref_detection(q):
    q = b(q, QBITS)
    att, cor = ref_att(q)
    if q["molecular"] and not q["radar"]:
        return 9
    if q["clutter"]:
        return 8
    if q["radar"]:
        if att and not cor:
            return 2
        if cor:
            return 7
        return 3 if q["lidar"] else 5
    if att:
        return 6 if cor else 4
    return 1 if q["lidar"] else 0


def ref_source(q):
    q = b(q, QBITS)
    return {(True, True): 1, (True, False): 2, (False, True): 3, (False, False): 0}[
        (q["radar"], q["lidar"])
    ]


def run_bits(case, tmp) -> Out:
    """All 64 x 1024 combinations, laid out in `case["order"]`."""
    from cloudnetpy.products import generate_classification

    cc, qq = np.meshgrid(np.arange(64), np.arange(1024), indexing="ij")
    words = np.stack([cc.ravel(), qq.ravel()], axis=1)
    n = len(words)
    perm = (np.arange(n) * case["stride"] + case["shift"]) % n
    words = words[perm]
    shape = case["shape"]
    cat, qual = words[:, 0].reshape(shape), words[:, 1].reshape(shape)
    path, out = os.path.join(tmp, "cat.nc"), os.path.join(tmp, "out.nc")
    fields = {
        "category_bits": cat.astype("i4"),
        "quality_bits": qual.astype("i4"),
        "radar_frequency": np.array(35.5),
        "rain_detected": (np.arange(shape[0]) % 2).astype("i4"),
        "radar_liquid_atten": ma.masked_all(shape),
        "radar_rain_atten": ma.masked_all(shape),
        "radar_melting_atten": ma.masked_all(shape),
    }
    fields = {k: v for k, v in fields.items() if k not in case.get("drop", [])}
    time = np.linspace(0.01, 23.9, shape[0])
    catfile.write(path, time, 100.0 + 30 * np.arange(shape[1]), fields)
    h = ncio.filehash(path)
    generate_classification(path, out)
    check(ncio.filehash(path) == h, "the categorize file was modified")
    got = catfile.load(out)
    states = []
    for name, ref in (
        ("target_classification", lambda c, q: ref_target(c, q)),
        ("detection_status", lambda c, q: ref_detection(q)),
        ("signal_source_status", lambda c, q: ref_source(q)),
    ):
        g = got[name].filled(-1)
        table = {}
        for c, q, v in zip(cat.ravel().tolist(), qual.ravel().tolist(), g.ravel().tolist()):
            w = ref(c, q)
            check(v == w, lambda: f"{name}={v} for {b(c, BITS)} {b(q, QBITS)}, documented {w}")
            table[(c, q)] = v
        states += [f"{name}{k}{v}" for k, v in table.items()]
    check((got["rain_detected"] == fields["rain_detected"]).all(), "rain_detected not passed on")
    return Out(states=states, transitions=3 * n, traces=n)


def cases_bits():
    yield {"stride": 1, "shift": 0, "shape": [256, 256]}
    yield {"stride": 40503, "shift": 7, "shape": [256, 256]}
    yield {"stride": 1, "shift": 3, "shape": [1024, 64]}
    yield {"stride": 9973, "shift": 3, "shape": [64, 1024]}
    yield {"stride": 1, "shift": 0, "shape": [256, 256],
           "drop": ["radar_liquid_atten", "radar_rain_atten", "radar_melting_atten"]}


# ---- attenuation status over whole columns ---------------------------------------------

# What one gate can look like: quality bits and summed attenuation (dB or None).
GATES = {
    "clear": (0, None),
    "clear_att": (1 << 6, 20.0),  # attenuated, no radar echo
    "echo": (1, None),
    "zero": (1, 0.0),
    "small": (1 | 1 << 4 | 1 << 5, 1.0),
    "moderate": (1 | 1 << 6 | 1 << 7, 10.0),
    "moderate2": (1 | 1 << 6 | 1 << 7, 15.0),
    "severe": (1 | 1 << 4 | 1 << 5, 15.5),
    "uncorr": (1 | 1 << 6, 20.0),
    "half": (1 | 1 << 4 | 1 << 5 | 1 << 8, 3.0),
}


def ref_column(gates, heavy):
    """Documented attenuation status of one column, bottom up."""
    out, seen_severe = [], False
    for name in gates:
        q, att = GATES[name]
        q = b(q, QBITS)
        is_att, cor = ref_att(q)
        att = att or 0.0
        v = 0
        if q["radar"]:
            v = 1
            if att > 0:
                v = 2
            if att >= 10:
                v = 3
            if att > 15 or heavy:
                v = 4
            if is_att and not cor:
                v = 5
        if v == 4:
            seen_severe = True
        elif seen_severe:
            v = 6
        out.append(v)
    return out


def run_att(case, tmp) -> Out:
    """case: list of columns (one per profile), split of attenuation over the three causes."""
    from cloudnetpy.products import generate_classification

    cols = case["columns"]
    nt, nh = len(cols), len(cols[0])
    shape = (nt, nh)
    qual = np.array([[GATES[g][0] for g in c] for c in cols])
    att = ma.masked_all(shape)
    for i, c in enumerate(cols):
        for j, g in enumerate(c):
            if GATES[g][1] is not None:
                att[i, j] = GATES[g][1]
    parts = {k: ma.masked_all(shape) for k in ("liquid", "rain", "melting")}
    w = case["split"]
    for k, f in zip(parts, w):
        if f:
            parts[k] = att * f
    band = case["freq"]
    # per-profile liquid water path and rain rate classes
    LWP = {"none": None, "low": 0.9, "edge": 1.0, "high": 1.1}
    RR = {"none": None, "low": 2.5 / 3.6e6, "high": 3.5 / 3.6e6}
    heavy, lwp, rr = [], ma.masked_all(nt), ma.masked_all(nt)
    combos = list(itertools.product(LWP, RR)) if case["weather"] else [("none", "none")]
    for i in range(nt):
        lk, rk = combos[i % len(combos)]
        if LWP[lk] is not None:
            lwp[i] = LWP[lk]
        if RR[rk] is not None:
            rr[i] = RR[rk]
        heavy.append(band > 90 and (lk == "high" or rk == "high"))
    path, out = os.path.join(tmp, "cat.nc"), os.path.join(tmp, "out.nc")
    fields = {
        "category_bits": np.zeros(shape, "i4"),
        "quality_bits": qual.astype("i4"),
        "radar_frequency": np.array(band),
        "rain_detected": np.zeros(nt, "i4"),
        **{f"radar_{k}_atten": v for k, v in parts.items()},
    }
    if case["weather"]:
        fields |= {"lwp": lwp, "rainfall_rate": rr}
    catfile.write(path, np.linspace(0, 23.9, nt), 100.0 + 30 * np.arange(nh), fields)
    generate_classification(path, out)
    got = catfile.load(out, ["radar_attenuation_status"])["radar_attenuation_status"].filled(-1)
    states = []
    for i, c in enumerate(cols):
        want = ref_column(c, heavy[i])
        g = got[i].tolist()
        check(g == want, lambda: f"column {c} (heavy={heavy[i]}): status {g}, documented {want}")
        states.append(f"{c}{heavy[i]}{g}")
    return Out(states=states, transitions=nt * nh, traces=nt)


def cases_att(depth):
    names = list(GATES)
    cols = [list(c) for c in itertools.product(names, repeat=depth)]
    step = 2000
    for k in range(0, len(cols), step):
        block = cols[k : k + step]
        for split in ([1, 0, 0], [0, 1, 0], [0.25, 0.25, 0.5]):
            yield {"columns": block, "split": split, "freq": 35.5, "weather": False}
        yield {"columns": block, "split": [1, 0, 0], "freq": 35.5, "weather": True}
    short = [list(c) for c in itertools.product(names, repeat=depth - 1) for _ in range(12)]
    for k in range(0, len(short), step):
        yield {"columns": short[k : k + step], "split": [0, 0, 1], "freq": 94.9, "weather": True}


# ---- cloud boundaries ---------------------------------------------------------------------

CLOUDY = {1: 0b1, 3: 0b11, 4: 0b110, 5: 0b111}
NOT_CLOUDY = {0: 0, 2: 0b10, 6: 0b1000, 7: 0b1001, 8: 0b10000, 9: 0b100000}


def components(mask):
    """4-connected components of a boolean grid (list of lists)."""
    nt, nh = len(mask), len(mask[0])
    seen = [[False] * nh for _ in range(nt)]
    for i in range(nt):
        for j in range(nh):
            if mask[i][j] and not seen[i][j]:
                stack, comp = [(i, j)], []
                seen[i][j] = True
                while stack:
                    x, y = stack.pop()
                    comp.append((x, y))
                    for u, v in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)):
                        if 0 <= u < nt and 0 <= v < nh and mask[u][v] and not seen[u][v]:
                            seen[u][v] = True
                            stack.append((u, v))
                yield comp


def run_cloud(case, tmp) -> Out:
    """case: blocks [(column word as bit pattern, width, second pattern, width)], gates, base"""
    from cloudnetpy.products import generate_classification

    nh = case["gates"]
    clouds = [CLOUDY[k] for k in (1, 3, 4, 5)]
    others = list(NOT_CLOUDY.values())
    rows = []
    for blk in case["blocks"]:
        rows.append([0] * nh)
        for pattern, width in blk:
            for w in range(width):
                rows.append(
                    [
                        clouds[(j + w + pattern) % 4] if pattern >> j & 1 else others[(j + w) % 6]
                        for j in range(nh)
                    ]
                )
    rows.append([0] * nh)
    nt = len(rows)
    mask = [[r in clouds for r in row] for row in rows]
    big = [[False] * nh for _ in range(nt)]
    for comp in components(mask):
        if len(comp) > 20:
            for x, y in comp:
                big[x][y] = True
    height = [case["base"] + 50.0 * j for j in range(nh)]
    alt = 100.0
    sev = case.get("att", 0)
    qual = np.full((nt, nh), [1, 1 | 1 << 6 | 1 << 7, 1 | 1 << 6 | 1 << 7, 1 | 1 << 6][sev], "i4")
    att = np.full((nt, nh), [0.0, 12.0, 16.0, 0.0][sev])
    path, out = os.path.join(tmp, "cat.nc"), os.path.join(tmp, "out.nc")
    catfile.write(
        path,
        np.linspace(0, 23.9, nt),
        height,
        {
            "category_bits": np.array(rows, "i4"),
            "quality_bits": qual,
            "radar_frequency": np.array(35.5),
            "rain_detected": np.zeros(nt, "i4"),
            "radar_liquid_atten": att,
            "radar_rain_atten": att * 0,
            "radar_melting_atten": att * 0,
        },
        altitude=alt,
    )
    generate_classification(path, out)
    g = catfile.load(out)
    states = []
    for i in range(nt):
        hs = [h for h, m in zip(height, big[i]) if m]
        for name, want in (
            ("cloud_base_height_amsl", hs[0] if hs else None),
            ("cloud_top_height_amsl", hs[-1] if hs else None),
            ("cloud_base_height_agl", hs[0] - alt if hs else None),
            ("cloud_top_height_agl", hs[-1] - alt if hs else None),
        ):
            v = ncio.listify(g[name])[i] if False else g[name][i]
            v = None if v is ma.masked else float(v)
            check(
                (v is None) == (want is None) and (v is None or abs(v - want) < 1e-2),
                lambda: f"{name}={v}, expected {want} in profile {i} {mask[i]} of {case['blocks'][:3]}",
            )
        if hs:
            st = int(g["cloud_top_height_status"][i])
            want = 4 if hs[-1] >= height[-1] else [0, 1, 3, 2][sev]
            check(st == want, lambda: f"cloud_top_height_status={st}, documented {want}")
        states.append(f"{mask[i]}{hs}")
    return Out(states=states, transitions=nt, traces=len(case["blocks"]))


def cases_cloud(gates):
    blocks = []
    for p in range(2**gates):
        blocks.append([[p, 3]])
        blocks.append([[p, 4]])
        blocks.append([[p, 7]])
        blocks.append([[p, 21]])
    for p, q in itertools.product(range(1, 2**gates), repeat=2):
        if gates <= 6:
            blocks.append([[p, 3], [q, 3]])
            blocks.append([[p, 1], [q, 5], [p, 2]])
    step = 400
    for k in range(0, len(blocks), step):
        yield {"blocks": blocks[k : k + step], "gates": gates, "base": 150.0, "att": (k // step) % 4}
    for p in (0, 1, 2**gates - 1, 0b101):
        for att in range(4):
            yield {"blocks": [[[p, 30]]], "gates": gates, "base": 150.0, "att": att}
            yield {"blocks": [[[p, 5]]], "gates": gates, "base": 150.0, "att": att}


def run(ctx) -> None:
    ctx.explore("bits", run_bits, list(cases_bits()), chunk=1,
                bound="all 2^16 combinations of category and quality bits, in five layouts")
    ctx.explore("attenuation", run_att, list(cases_att(5 if ctx.thorough else 4)), chunk=1,
                bound="all columns of 4 (5) gates over 10 kinds of gate; all liquid water path x rain rate classes")
    ctx.explore("boundaries", run_cloud, list(cases_cloud(6 if ctx.thorough else 5)), chunk=1,
                bound="all column patterns of 5 (6) gates and all pairs of patterns side by side, 4 widths")
    ctx.assume("cloud boundaries are taken from connected cloud regions of more than 20 pixels")
