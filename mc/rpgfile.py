"""Writers of RPG binary files: cloud radar LV1, radiometer LWP and IWV."""

import struct

import numpy as np

LV1 = {2.0: 789347, 3.5: 889347, 3.6: 1889347, 4.0: 889348}
SCALARS = ("RR", "RelHum", "EnvTemp", "BaroP", "WS", "WD", "DDVolt", "DDTb", "LWP", "PowIF", "Elev", "Azi", "Status", "TransPow", "TransT", "RecT", "PCT")
GATES = ("Ze", "MeanVel", "SpecWidth", "Skewn", "Kurt")
LDR = ("RefRat", "CorrCoeff", "DiffPh")
STSR = ("SLDR", "SCorrCoeff", "KDP", "DiffAtt")


def floats(x):
    return np.array(x, "<f4").tobytes()


def ints(x):
    return np.array(x, "<i4").tobytes()


def write_lv1(path, h, profs, cut=None):
    """h: header values, profs: list of dicts with t, ms, qf, scalars and gates (None = no signal)."""
    ver, pol = h["version"], h["pol"]
    n, nt, nh, nc = len(h["range"]), h.get("nt", 2), h.get("nh", 3), len(h["chirps"]["RngOffs"])
    b = b""
    if ver > 2:
        t = [p["t"] for p in profs] or [0]
        b += struct.pack("<II", min(t), max(t))
    b += struct.pack("<ii", h["program"], h["model"])
    b += h.get("progname", "PROG 1").encode() + b"\0" + h["customer"].encode() + b"\0"
    b += struct.pack("<5f", h["freq"], h["sep"], h["dia"], h["gain"], h["hpbw"])
    b += struct.pack("<b", pol)
    b += struct.pack("<3f", h["sampdur"], h["lat"], h["lon"])
    b += struct.pack("<5i", h["calint"], n, nt, nh, nc)
    b += floats(h["range"]) + floats(range(nt)) + floats(range(nh))
    c = h["chirps"]
    b += ints(c["SpecN"]) + ints(c["RngOffs"]) + ints(c["ChirpReps"]) + floats(c["SeqIntTime"]) + floats(c["dR"]) + floats(c["MaxVel"])
    if ver > 2:
        b += struct.pack("<5bHHf", 1, 0, 1, 0, h["fft"], h["volt"], 553, h["noise"])
        if ver > 3.6:
            b += struct.pack("<i", 7) + bytes(24 * 4) + bytes(10000 * 4)
    body = struct.pack("<i", len(profs))
    for p in profs:
        s = struct.pack("<Iib", p["t"], p["ms"], p["qf"])
        s += floats([p[k] for k in SCALARS])
        s += bytes(4 * (3 + nt + 2 * nh + n + (n if pol else 0)))
        s += bytes([0 if x is None else 1 for x in p["gates"]])
        for g in p["gates"]:
            if g is None:
                continue
            s += floats([g[k] for k in GATES])
            if pol:
                s += floats([g[k] for k in LDR])
            if pol == 2:
                s += floats([0.0]) + floats([g[k] for k in STSR])
        body += struct.pack("<i", len(s)) + s
    raw = struct.pack("<ii", LV1[ver], len(b)) + b + body
    with open(path, "wb") as f:
        f.write(raw if cut is None else raw[:cut])


CODES = {("LWP", 1): 934501978, ("LWP", 2): 934501000, ("IWV", 1): 594811068, ("IWV", 2): 594811000}


def angle(ele, azi, version):
    if version == 1:
        if ele >= 100:
            return azi * 1000 + (ele - 100) + 1e6
        return (1 if ele >= 0 else -1) * (abs(ele) + 1000 * azi)
    return int((1 if ele >= 0 else -1) * (round(abs(ele) * 100) * 100000 + round(azi * 100)))


def write_mwr(path, kind, version, rows, ref=1, code=None, n=None, cut=None):
    """rows: (time, flag, value, elevation, azimuth)"""
    raw = struct.pack("<iiffii", code or CODES[kind, version], len(rows) if n is None else n, 0.0, 1.0, ref, 0)
    for t, q, x, ele, azi in rows:
        a = angle(ele, azi, version)
        raw += struct.pack("<ib" + ("ff" if version == 1 else "fi"), t, q, x, a)
    with open(path, "wb") as f:
        f.write(raw if cut is None else raw[:cut])
