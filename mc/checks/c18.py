"""C18: microwave radiometers (HATPRO .LWP/.IWV binary files, Radiometrics .csv and .los files).

A case lists the files of the folder and the records of each as a word of symbols.
"""

import datetime
import itertools
import os

import numpy as np

from .. import ncio, rpgfile
from ..core import Out, Violation, check, digest

LEVEL = "model_checking"
SITE = {"name": "Bunker", "altitude": 100.0, "latitude": 51.25, "longitude": -1.5}
DAY = datetime.date(2021, 3, 4)
EPOCH = 86400 * (DAY - datetime.date(2001, 1, 1)).days
TIMES = {"P": -660, "Z": 0, "A": 600, "B": 601, "C": 660, "D": 50400, "E": 86399, "M": 86400, "N": 86400 + 330}


class Refused(Exception):
    pass


def f32(x):
    return float(np.float32(x))


# HATPRO -------------------------------------------------------------------------------


def hatpro_rows(f, base):
    rows = []
    for i, s in enumerate(f["w"]):
        k = s[1:]
        q = 0b110 if "l" in k else 0b111 if "L" in k else 0b010 if "h" in k else 0b100 if "m" in k else 0b001 if "b" in k else 0
        x = f32(0.0 if "0" in k else (100.0 + 10 * i + base if f["kind"] == "LWP" else 20.0 + i + base))
        if "n" in k:
            x = -x
        ele, azi = (85.5, 270.0) if "t" in k else (-20.0, 10.5) if "d" in k else (120.0, 12.5) if "u" in k else (90.0, 0.0)
        rows.append({"t": TIMES[s[0]], "q": q, "x": x, "ele": ele, "azi": azi})
    return rows


def hatpro_file(f, rows, day):
    """Rows that one file contributes as lists of alternatives; None if the file is ignored."""
    if f.get("broken") in ("empty", "text", "header", "code"):
        return None
    if f.get("cut"):  # the last record is incomplete
        rows = rows[:-1]
    groups = {}
    for r in rows:
        groups.setdefault(r["t"], []).append(r)
    groups = [groups[t] for t in sorted(groups)]
    first = [g[0] for g in groups]
    if rows and all(r["x"] == 0 for r in first):
        val = [[{**r, "x": None} for r in g] for g in groups]
    else:
        bad = [all(r["q"] & 6 == 6 for r in g) for g in groups]
        if all(bad):
            return None
        val = [[{**r, "x": None if r["q"] & 6 == 6 else r["x"]} for r in g] for g in groups]
    if day:
        if f.get("ref", 1) != 1:
            return None
        val = [g for g in val if 0 <= g[0]["t"] < 86400]
    if not val:
        return None
    return val


def hatpro_expected(case, content):
    day = case.get("date", "day") is not None
    stems = {}
    for n, f in enumerate(case["files"]):
        got = hatpro_file(f, content[n], day)
        if got is not None:
            stems.setdefault(f["stem"], []).append((n, f["kind"], got))
    used, parts = [], []
    for stem in sorted(stems):
        objs = stems[stem]
        by = {k: {g[0]["t"]: g for g in gs} for _, k, gs in objs}
        rows = []
        ok = True
        for t in sorted({t for d in by.values() for t in d}):
            g = {k: d[t] for k, d in by.items() if t in d}
            eles = [r["ele"] for x in g.values() for r in x]
            if len(set(eles)) > 1:
                ok = False
            rows.append({"t": t, **{k: [r["x"] for r in x] for k, x in g.items()}, "ele": eles})
        if not ok:
            continue
        used += [n for n, _, _ in objs]
        parts += rows
    if not any(case["files"][n]["kind"] == "LWP" for n in used):
        raise Refused
    names = ["LWP"] + (["IWV"] if any(case["files"][n]["kind"] == "IWV" for n in used) else [])
    groups = [[r for r in parts if r["t"] == t] for t in sorted({r["t"] for r in parts})]
    return used, names, groups


def run_hatpro(case, tmp):
    from cloudnetpy.exceptions import CloudnetException
    from cloudnetpy.instruments import hatpro2nc

    d = os.path.join(tmp, "raw")
    os.mkdir(d)
    content = []
    paths = []
    for n, f in enumerate(case["files"]):
        rows = hatpro_rows(f, 100 * n)
        content.append(rows)
        path = os.path.join(d, f["stem"] + "." + (f["kind"].lower() if case.get("lower") else f["kind"]))
        paths.append(path)
        b = f.get("broken")
        if b == "empty":
            open(path, "w").close()
        elif b == "text":
            with open(path, "w") as fh:
                fh.write("kissa kissa kissa kissa kissa")
        else:
            rpgfile.write_mwr(
                path, f["kind"], f.get("ver", 2), [(EPOCH + r["t"], r["q"], r["x"], r["ele"], r["azi"]) for r in rows], f.get("ref", 1),
                code=12345 if b == "code" else None, cut=10 if b == "header" else -3 if f.get("cut") else None,
            )
    for x in case.get("junk", ()):
        with open(os.path.join(d, x), "w") as fh:
            fh.write("x")
    before = {x: ncio.filehash(os.path.join(d, x)) for x in os.listdir(d)}
    out = os.path.join(tmp, "out.nc")
    date = {"day": DAY, "str": DAY.isoformat(), None: None}[case.get("date", "day")]
    itype = case.get("type", "hatpro")
    try:
        used, names, groups = hatpro_expected(case, content)
        refused = False
    except Refused:
        refused = True
    try:
        uuid, files = hatpro2nc(d, out, SITE, instrument_type=itype, date=date)
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    n = sum(len(x) for x in content)
    check(before == {x: ncio.filehash(os.path.join(d, x)) for x in os.listdir(d)}, "raw files were changed")
    if refused:
        check(err is not None, "a folder without usable LWP files was accepted")
        if not isinstance(err, CloudnetException):
            raise err
        check(not os.path.exists(out), "an output file was left behind")
        return Out(states=[digest("refused")], transitions=n)
    if err is not None:
        raise err
    f = ncio.read(out)
    v = {k: x["data"] for k, x in f["vars"].items()}
    a = f["attrs"]
    check(sorted(map(str, files)) == sorted(paths[i] for i in used), lambda: f"files used: {files}")
    check(a["file_uuid"] == str(uuid), "uuid")
    common(case, f, [(g[0]["t"], None) for g in groups])
    check(a["cloudnet_file_type"] == "mwr" and {"hatpro": "HATPRO", "lhatpro": "LHATPRO", "lhumpro_u90": "LHUMPRO"}[itype] in a["source"], lambda: f"source {a['source']}")
    check(("iwv" in v) == ("IWV" in names), "presence of iwv")
    for i, g in enumerate(groups):
        fits = []
        for r in g:
            bad = []
            for key, name, scale in (("LWP", "lwp", 1e-3), ("IWV", "iwv", 1.0)):
                if key not in names:
                    continue
                opts = [None if x is None else x * scale for x in r.get(key, [None])]
                if not any(ncio.same(v[name][i], x, 1e-6) for x in opts):
                    bad.append(f"{name} {v[name][i]} expected {opts}")
            z = v["zenith_angle"][i] if isinstance(v["zenith_angle"], list) else v["zenith_angle"]
            if not any(z is not None and abs(z - (90 - e)) < 0.11 for e in r["ele"]):
                bad.append(f"zenith angle {z} expected {[90 - e for e in r['ele']]}")
            fits.append(bad)
        check(any(not b for b in fits), lambda: f"record {i} of {len(groups)} at {groups[i][0]['t']} s: {fits[0]}")
    return Out(states=[digest([len(groups), names, len(used), [sorted(str(x) for x in g[0]) for g in groups]])], transitions=n)


def common(case, f, rows):
    v = {k: x["data"] for k, x in f["vars"].items()}
    a = f["attrs"]
    day = 0 if case.get("date", "day") else rows[0][0] // 86400
    dd = DAY + datetime.timedelta(days=day)
    check((a["year"], a["month"], a["day"]) == (str(dd.year), f"{dd.month:02d}", f"{dd.day:02d}"), lambda: f"date {a['year'], a['month'], a['day']}")
    check(f["vars"]["time"]["attrs"]["units"] == f"hours since {dd} 00:00:00 +00:00", "time unit")
    hours = [(t - 86400 * day) / 3600 for t, _ in rows]
    check(ncio.same(v["time"], hours, 2e-7), lambda: f"times {v['time']} expected {hours}")
    check(a["location"] == "Bunker", "location")
    loc = [x if not isinstance(x, list) else x[0] for x in (v["latitude"], v["longitude"], v["altitude"])]
    check(loc == [51.25, -1.5, 100.0], lambda: f"location {loc}")


# Radiometrics -------------------------------------------------------------------------

GOOD = ("0.00:90.00", "Zenith", "Zenith16", "Zenith18")
BAD = ("Angle20(N)", "15.00:90.00")
KM = ["0.00", "0.10", "0.25", "1.00"]


def stampf(t, long=False):
    d = datetime.datetime.combine(DAY, datetime.time()) + datetime.timedelta(seconds=t)
    return d.strftime("%m/%d/%Y %H:%M:%S" if long else "%m/%d/%y %H:%M:%S")


def mp_blocks(f, base):
    """Observation blocks: time, infrared temperature, and one liquid/vapour/profile set per direction."""
    out = []
    for i, s in enumerate(f["w"]):
        k = s[1:]
        t = TIMES[s[0]]
        dirs = [GOOD[i % 4]]
        if "b" in k:
            dirs = [BAD[i % 2]]
        elif "2" in k:
            dirs = [BAD[i % 2], GOOD[i % 4]]
        elif "3" in k:
            dirs = [GOOD[i % 4], BAD[0], GOOD[(i + 1) % 4]] if False else [BAD[0], GOOD[i % 4], BAD[1]]
        obs = []
        for j, p in enumerate(dirs):
            n = base + 10 * i + j
            o = {"proc": p, "t": t + 2 * (j + 1), "iwv": round(1.0 + 0.01 * n, 3), "lwp": round(0.001 * n, 3)}
            for q, key in enumerate(("temp", "ah", "liq", "rh")):
                o[key] = [round((270, 5, 0.1, 60)[q] + 0.01 * n + 0.5 * m, 2) for m in range(len(KM))]
            if "g" in k:
                o["temp"][1] = o["ah"][2] = "-"
            obs.append(o)
        out.append({"t": t, "irt": round(220.0 + 0.5 * i + base, 1), "obs": obs})
    return out


TITLES = ("Temperature (K)", "Vapor Density (g/m^3)", "Liquid (g/m^3)", "Relative Humidity (%)")


def mp_write(path, f, blocks):
    fmt = f.get("fmt", "new")
    km = f.get("km", KM)
    lines, n = [], 0

    def row(t, code, *vals):
        nonlocal n
        n += 1
        lines.append((n, f"{n:6d},{stampf(t, f.get('long'))},{code}," + ",".join(str(x) for x in vals)))

    head = []
    dq = ["DataQuality"] if f.get("dq") else []
    tail = [0] if f.get("dq") else []
    if fmt == "old":
        head.append("Record,Date/Time,10,Tamb(K),Rh(%),Pres(mb),Tir(K),Rain,Vint(cm),Lqint(mm), " + ", ".join(km))
        for b in blocks:
            for o in b["obs"][:1]:
                for j, key in enumerate(("temp", "ah", "rh", "liq")):
                    row(b["t"], 11 + j, 280.0, 50.0, 1000.0, b["irt"], "N", o["iwv"], o["lwp"], *o[key])
    else:
        head.append("Record,Date/Time,100,Record Type,Title")
        head.append("Record,Date/Time,200," + ",".join(["Tamb(K)", "Rh(%)", "Pres(mb)", "Tir(K)", "Rain"] + dq))
        head.append("Record,Date/Time,300," + ",".join(["Int. Vapor(cm)", "Int. Liquid(mm)", "Cloud Base(km)"] + dq))
        head.append("Record,Date/Time,400," + ",".join(["LV2 Processor"] + [" " + x for x in km] + dq))
        for j, title in enumerate(TITLES):
            row(TIMES["A"], 101, 401 + j, title)
        if f.get("unknown"):
            row(TIMES["A"], 99, "something", "else")
        for b in blocks:
            row(b["t"], 201, 280.0, 50.0, 1000.0, b["irt"], 0, *tail)
            for first in (True, False):
                if first != bool(f.get("after")):  # integrals before or after the profiles
                    for o in b["obs"]:
                        row(o["t"], 301, o["iwv"], o["lwp"], -1.0, *tail)
                else:
                    for o in b["obs"]:
                        for j, key in enumerate(("temp", "ah", "liq", "rh")):
                            row(o["t"], 401 + j, o["proc"], *o[key], *tail)
    if f.get("shuffle"):
        lines = lines[1::2] + lines[::2]
    with open(path, "w") as fh:
        fh.write("\n".join(head + [x for _, x in lines]) + "\n")


def los_write(path, f, rows):
    with open(path, "w") as fh:
        fh.write(" RETRIEVAL COEFFICIENTS:\nVapor  c0 = .005\n\n")
        fh.write("  date    time   TbSky23 TbSky31    TkBB    VapCM    LiqCM   DelCM   AZact  ELact Tau23  Tau31  Tamb   Rh  Pres  Rain\n")
        for r in rows:
            if r.get("ragged"):
                fh.write(stampf(r["t"]) + "  56.70 -669.66  284.96\n")
                continue
            iwv = "******" if r["iwv"] is None else f"{r['iwv']:.3f}"
            fh.write(f"{stampf(r['t'])}   {r['tb23']}   {r['tb31']}  296.99    {iwv}    {r['lwp']:.4f}   20.41     .0   {r['ele']}  .2218  .1319 233.1 ****** 1024.0 -.01\n")


def los_rows(f, base):
    out = []
    for i, s in enumerate(f["w"]):
        k = s[1:]
        n = base + i
        r = {"t": TIMES[s[0]], "tb23": 56.7, "tb31": 35.85, "ele": 90.0, "iwv": round(1 + 0.01 * n, 3), "lwp": round(0.001 * n, 4)}
        if "t" in k:
            r["ele"] = 59.9
        if "s" in k:
            r["ele"] = 89.1
        if "v" in k:
            r["ele"] = 91.0
        if "x" in k:
            r["tb31"] = -669.66
        if "y" in k:
            r["tb23"] = 0.0
        if "g" in k:
            r["iwv"] = None
        if "r" in k:
            r["ragged"] = True
        out.append(r)
    return out


def closest(items, t):
    d = min(abs(x[0] - t) for x in items)
    return [x[1] for x in items if abs(x[0] - t) == d]


def num(x):
    return None if isinstance(x, str) else x


def radiometrics_expected(case, content):
    """Records (time, liquid, vapour, alternatives of the infrared temperature and profiles)."""
    recs = []
    for f, rows in zip(case["files"], content):
        if f["fmt"] == "los":
            for r in rows:
                if not r.get("ragged") and abs(r["ele"] - 90) < 1 and r["tb23"] > 0 and r["tb31"] > 0:
                    recs.append({"t": r["t"], "lwp": 10 * r["lwp"], "iwv": None if r["iwv"] is None else 10 * r["iwv"]})
            continue
        old = f["fmt"] == "old"
        obs = [(b["t"] if old else o["t"], o) for b in rows for o in (b["obs"][:1] if old else b["obs"]) if old or o["proc"] in GOOD]
        irt = [(b["t"], b["irt"]) for b in rows]
        for t, o in obs:
            r = {"t": t, "lwp": o["lwp"], "iwv": 10 * o["iwv"], "irt": closest(irt, t)}
            for key, name, scale in (("temp", "temperature", 1.0), ("rh", "relative_humidity", 0.01), ("ah", "absolute_humidity", 0.001)):
                r[name] = [[None if num(x) is None else x * scale for x in p] for p in closest([(u, q[key]) for u, q in obs], t)]
            recs.append(r)
    if case.get("date", "day") is not None:
        recs = [r for r in recs if 0 <= r["t"] < 86400]
    if not recs:
        raise Refused
    kms = {tuple([] if f["fmt"] == "los" else f.get("km", KM)) for f in case["files"]}
    if len(kms) > 1:
        raise Refused
    return [[r for r in recs if r["t"] == t] for t in sorted({r["t"] for r in recs})], [1000 * float(x) for x in kms.pop()]


def run_radiometrics(case, tmp):
    from cloudnetpy.exceptions import CloudnetException
    from cloudnetpy.instruments import radiometrics2nc

    d = os.path.join(tmp, "raw")
    os.mkdir(d)
    content = []
    n = 0
    for i, f in enumerate(case["files"]):
        path = os.path.join(d, f"f{i}." + ("los" if f["fmt"] == "los" else "csv"))
        if f["fmt"] == "los":
            rows = los_rows(f, 100 * i)
            los_write(path, f, rows)
        else:
            rows = mp_blocks(f, 100 * i)
            mp_write(path, f, rows)
        content.append(rows)
        n += len(rows)
    src = path if case.get("single") else d
    before = {x: ncio.filehash(os.path.join(d, x)) for x in os.listdir(d)}
    out = os.path.join(tmp, "out.nc")
    date = {"day": DAY, "str": DAY.isoformat(), None: None}[case.get("date", "day")]
    try:
        groups, rng = radiometrics_expected(case, content)
        refused = False
    except Refused:
        refused = True
    try:
        uuid = radiometrics2nc(src, out, SITE, date=date)
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    check(before == {x: ncio.filehash(os.path.join(d, x)) for x in os.listdir(d)}, "raw files were changed")
    if refused:
        check(err is not None, "files without a usable record were accepted")
        if not isinstance(err, CloudnetException):
            raise err
        check(not os.path.exists(out), "an output file was left behind")
        return Out(states=[digest("refused")], transitions=n)
    if err is not None:
        raise err
    f = ncio.read(out)
    v = {k: x["data"] for k, x in f["vars"].items()}
    check(f["attrs"]["file_uuid"] == str(uuid), "uuid")
    check("Radiometrics" in f["attrs"]["source"] and f["attrs"]["cloudnet_file_type"] == "mwr", "source")
    common(case, f, [(g[0]["t"], None) for g in groups])
    if rng:
        check(ncio.same(v["range"], rng, 1e-6), lambda: f"range {v['range']}")
        check(ncio.same(v["height"], [x + 100 for x in rng], 1e-6), lambda: f"height {v['height']}")
    for i, g in enumerate(groups):
        msgs = []
        for r in g:
            bad = [f"{k} {v[k][i]} expected {r[k]}" for k in ("lwp", "iwv") if not ncio.same(v[k][i], r[k], 2e-6)]
            for k in ("irt", "temperature", "relative_humidity", "absolute_humidity"):
                if k not in r:
                    bad += [f"{k} in the file"] if k in v else []
                    continue
                got = v[k][i][0] if k == "irt" else v[k][i]
                if not any(ncio.same(got, x, 2e-6) for x in r[k]):
                    bad.append(f"{k} {got} expected {r[k]}")
            msgs.append(bad)
        check(any(not b for b in msgs), lambda: f"record {i} of {len(groups)}: {msgs[0]}")
    return Out(states=[digest([len(groups), [f["fmt"] for f in case["files"]]])], transitions=n)


# Cases --------------------------------------------------------------------------------


def words(syms, n):
    for k in range(1, n + 1):
        yield from itertools.product(syms, repeat=k)


def in_day(files, fmt=""):
    t = [TIMES[s[0]] for f in files for s in f["w"]]
    return all(0 < x < 86000 for x in t)


def dates(files, fmt="", **kw):
    yield {"files": files, **kw}
    if in_day(files):
        yield {"files": files, "date": None, **kw}
    else:
        yield {"files": files, "date": "str", **kw}


def cases_hatpro(n):
    out = []
    syms = ["P", "A", "Bl", "B", "Cm", "C0", "D", "N"]
    for w in words(syms, n):
        out += dates([{"stem": "x", "kind": "LWP", "w": list(w)}])
    small = ["A", "Al", "B", "C0", "N"]
    for a in words(small, 2):
        for b in words(small, 2):
            l, i = {"stem": "x", "kind": "LWP", "w": list(a)}, {"stem": "x", "kind": "IWV", "w": list(b)}
            out += dates([l, i])
            out.append({"files": [{**l, "w": [s.replace("A", "D") for s in a]}, {**i, "stem": "y"}]})
            out.append({"files": [l, {**l, "stem": "w", "w": list(b)}]})
    return [c for c in out if not torn(c)]


def torn(c):
    """Records of the same time stamp of different quality: unclear which of them is the measurement."""
    low = {}
    for n, f in enumerate(c["files"]):
        for s in f["w"]:
            low.setdefault((n, s[0]), set()).add("l" in s)
    return any(len(x) > 1 for x in low.values())


def cases_hatpro_kinds():
    out = []
    kinds = ["", "l", "L", "h", "m", "b", "0", "n", "t", "d", "u", "0l", "tl"]
    for ver in (1, 2):
        for k1, k2 in itertools.product(kinds, repeat=2):
            out.append({"files": [{"stem": "x", "kind": "LWP", "w": ["A" + k1, "B" + k2], "ver": ver}]})
            for ver2 in (1, 2):
                out.append({"files": [{"stem": "x", "kind": "LWP", "w": ["A" + k1, "B"], "ver": ver}, {"stem": "x", "kind": "IWV", "w": ["A" + k2, "B"], "ver": ver2}]})
                out.append({"files": [{"stem": "x", "kind": "LWP", "w": ["A" + k1, "B"], "ver": ver}, {"stem": "x", "kind": "IWV", "w": ["A", "C" + k2], "ver": ver2}]})
    return out


def cases_hatpro_files():
    out = []
    kinds = [{}, {"broken": "empty"}, {"broken": "text"}, {"broken": "header"}, {"broken": "code"}, {"ref": 0}, {"w": []}, {"w": ["N"]}, {"w": ["Bl"]}, {"cut": True, "w": ["A", "B"]}]
    slots = [("x", "LWP"), ("x", "IWV"), ("y", "LWP"), ("y", "IWV")]
    for sub in range(1, 16):
        use = [s for k, s in enumerate(slots) if sub >> k & 1]
        for ks in itertools.product(kinds, repeat=len(use)):
            if len(use) > 2 and sum(bool(k) for k in ks) > 2:
                continue
            fs = [{"stem": s, "kind": q, "w": ["A", "B"] if s == "x" else ["D"], **k} for (s, q), k in zip(use, ks)]
            out.append({"files": fs})
            if len(use) <= 2 and not any(f["w"] == ["N"] for f in fs):
                out.append({"files": fs, "date": None})
    for t in ("hatpro", "lhatpro", "lhumpro_u90"):
        out.append({"files": [{"stem": "x", "kind": "LWP", "w": ["A"]}], "type": t, "junk": ["a.txt", "x.BRT", "x.MET"]})
        for low in (["LWP"], ["LWP", "IWV"]):
            out.append({"files": [{"stem": "x", "kind": k, "w": ["A", "B"]} for k in low], "type": t, "lower": True})
    # zeros among other values
    for q in ("LWP", "IWV"):
        for w in itertools.product(("", "0", "n", "l"), repeat=4):
            fs = [{"stem": "x", "kind": q, "w": [t + k for t, k in zip("ABCD", w)]}]
            if q == "IWV":
                fs.append({"stem": "x", "kind": "LWP", "w": ["A", "B", "C", "D"]})
            out.append({"files": fs})
    # later data in the first file
    for a, b in itertools.permutations((["A", "B"], ["C", "D"], ["B", "E"], ["Z", "C"]), 2):
        out.append({"files": [{"stem": "x", "kind": "LWP", "w": a}, {"stem": "y", "kind": "LWP", "w": b}]})
        out.append({"files": [{"stem": "x", "kind": "LWP", "w": a}, {"stem": "y", "kind": "LWP", "w": b}, {"stem": "y", "kind": "IWV", "w": b}]})
    return out


def cases_mp(n):
    out = []
    for fmt in ("new", "old"):
        syms = ["P", "A", "C", "Cb", "D2", "D3", "Ng", "Ag"] if fmt == "new" else ["P", "A", "C", "Cg", "D", "N"]
        for w in words(syms, n):
            for cut in range(len(w)):
                files = [{"w": list(w[:cut])}, {"w": list(w[cut:])}] if cut else [{"w": list(w)}]
                for f in files:
                    f["fmt"] = fmt
                out += dates(files)
    for opts in itertools.product((0, 1), repeat=5):
        o = dict(zip(("long", "dq", "unknown", "after", "shuffle"), opts))
        for fmt in ("new", "old"):
            if fmt == "old" and (o["dq"] or o["unknown"] or o["after"]):
                continue
            for w in (["A", "C2", "Db"], ["Ag", "D3"], ["C", "A", "E", "N"]):
                out += dates([{"fmt": fmt, "w": w, **o}])
                out.append({"files": [{"fmt": fmt, "w": w, **o}], "single": True})
    for a, b in itertools.product(("new", "old", "los"), repeat=2):
        out.append({"files": [{"fmt": a, "w": ["A"]}, {"fmt": b, "w": ["C"]}]})
        out.append({"files": [{"fmt": a, "w": ["A"]}, {"fmt": b, "w": ["C"], "km": ["0.00", "0.20", "0.25", "1.00"]}]})
    out = [c for c in out if not any(f["fmt"] == "los" and "km" in f for f in c["files"])]
    return [c for c in out if not mixed(c)]


def mixed(c):
    return {f["fmt"] for f in c["files"]} == {"new", "old"}


def cases_los(n):
    out = []
    for w in words(["P", "A", "C", "Ct", "Cs", "Dv", "Dx", "Ey", "Eg", "Ar", "N"], n):
        for cut in range(min(len(w), 2)):
            files = [{"w": list(w[:cut])}, {"w": list(w[cut:])}] if cut else [{"w": list(w)}]
            for f in files:
                f["fmt"] = "los"
            out += dates(files)
    return out


def run(ctx):
    t = ctx.tier == "thorough"
    ctx.explore("hatpro", run_hatpro, cases_hatpro(4 if t else 3), bound=f"all LWP files of up to {4 if t else 3} of 8 records; all pairs of files of up to 2 of 5 records, same or different stem")
    ctx.explore("hatpro_kinds", run_hatpro, cases_hatpro_kinds(), bound="pairs of 13 kinds of records, both angle encodings, joined with IWV")
    ctx.explore("hatpro_files", run_hatpro, cases_hatpro_files(), bound="every subset of 4 files, each of 10 kinds of good, broken and empty files")
    ctx.explore("radiometrics", run_radiometrics, cases_mp(4 if t else 3), bound=f"all words of up to {4 if t else 3} of 8 (6) observation blocks, in one or two files; format options")
    ctx.explore("wvr", run_radiometrics, cases_los(4 if t else 3), bound=f"all words of up to {4 if t else 3} of 11 lines, in one or two files")
    ctx.assume("of records with the same time stamp any one may be kept")
    ctx.assume("an all-zero LWP or IWV file carries no measurement")
    ctx.assume("without a date all records are of one day")
