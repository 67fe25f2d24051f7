"""C01: merging several netCDF files into one keeps every record, once, whole."""

from __future__ import annotations

import datetime
import itertools
import os

from .. import ncio
from ..core import Out, check, digest

LEVEL = "model_checking"
FILL = -99.0

# File kinds: number of records, range gates, and what is odd about the file.
KINDS = {
    "t1": dict(n=1),
    "t2": dict(n=2),
    "t0": dict(n=0),
    "mask": dict(n=2, mask=True),
    "novar": dict(n=1, drop=["opt"]),
    "extra": dict(n=1, extra=True),
    "wide": dict(n=1, gates=[100.0, 200.0, 300.0, 400.0]),
    "narrow": dict(n=2, gates=[120.0, 290.0]),
    "shift": dict(n=1, gates=[150.0, 250.0, 340.0, 360.0, 900.0]),
}
GATES = [100.0, 200.0, 300.0]


def build(kind: str, tag: int, dim: str = "time", fmt: str = "NETCDF4_CLASSIC") -> dict:
    k = KINDS[kind]
    n, gates = k["n"], k.get("gates", GATES)
    base = 1000.0 * (tag + 1)
    times = [base / 1000.0 + 0.25 * i for i in range(n)]

    def cell(i, j, off):
        if k.get("mask") and (i + j) % 2 == 1:
            return None
        return base + 10 * i + j + off

    v = {
        dim: dict(dims=[dim], data=times, attrs={"units": f"hours since file {tag}"}),
        "range": dict(dims=["range"], data=gates, attrs={"units": "m"}),
        "v1": dict(
            dims=[dim, "range"],
            dtype="f4",
            fill=FILL - tag,
            data=[[cell(i, j, 0.5) for j in range(len(gates))] for i in range(n)],
            attrs={"long_name": f"v1 of {tag}"},
        ),
        "opt": dict(dims=[dim], dtype="i4", data=[int(base) + 500 + i for i in range(n)]),
        "cube": dict(
            dims=[dim, "range", "c"],
            dtype="i4",
            data=[
                [[int(base) + 100 * i + 10 * j + c for c in range(2)] for j in range(len(gates))]
                for i in range(n)
            ],
        ),
        "alt": dict(dims=[], data=50.0 + tag),
        "prof": dict(dims=["range"], data=[base + 0.1 * j for j in range(len(gates))]),
    }
    if k.get("extra"):
        v["only_here"] = dict(dims=[dim], data=[7.0] * n)
    for d in k.get("drop", []):
        del v[d]
    return {
        "dims": {dim: None, "range": len(gates), "c": 2},
        "vars": v,
        "attrs": {"title": f"file {tag}", "number": tag},
        "format": fmt,
    }


def nearest(x: list[float], target: list[float]):
    idx = []
    for t in target:
        best = min(range(len(x)), key=lambda i: (abs(x[i] - t), i))
        idx.append(best if min(x) <= t <= max(x) else None)
    return idx


def shape_missing(val, shape):
    if not shape:
        return None
    return [shape_missing(val, shape[1:]) for _ in range(shape[0])]


def model(specs: list[dict], dim: str, keep=None, ignore=None, attrs=None) -> dict | None:
    """The reference merge: `specs` already in the order of their names."""
    specs = [s for s in specs if len(s["vars"][dim]["data"]) > 0]
    if not specs:
        return None
    first = specs[0]
    g0 = first["vars"]["range"]["data"]
    size = {"range": len(g0), "c": 2}
    out: dict = {}
    for key, var in first["vars"].items():
        if ignore and key in ignore:
            continue
        if keep is not None and dim in var["dims"] and key != dim and key not in keep:
            continue
        if key == "range":
            out[key] = dict(dims=["range"], data=list(g0))
            continue
        dims = var["dims"] if dim in var["dims"] else [dim, *var["dims"]]
        data: list = []
        for s in specs:
            n = len(s["vars"][dim]["data"])
            if key not in s["vars"]:
                data += [shape_missing(None, [size[d] for d in dims[1:]]) for _ in range(n)]
                continue
            sv = s["vars"][key]
            recs = list(sv["data"]) if dim in sv["dims"] else [sv["data"]] * n
            g = s["vars"]["range"]["data"]
            if "range" in dims and len(g) != len(g0):
                idx = nearest(g, g0)
                empty = shape_missing(None, [size[d] for d in dims[2:]])
                recs = [[r[i] if i is not None else empty for i in idx] for r in recs]
            data += recs
        out[key] = dict(dims=dims, data=data)
    a = dict(first["attrs"])
    a.update(attrs or {})
    return {"vars": out, "attrs": a, "first": first}


def compare(got: dict, want: dict) -> None:
    check(
        set(got["vars"]) == set(want["vars"]),
        lambda: f"variables {sorted(got['vars'])} instead of {sorted(want['vars'])}",
    )
    for key, w in want["vars"].items():
        g = got["vars"][key]
        check(g["dims"] == w["dims"], lambda: f"{key}: dimensions {g['dims']} not {w['dims']}")
        check(
            ncio.same(g["data"], w["data"], 1e-6),
            lambda: f"{key}: records are {g['data']}, expected {w['data']}",
        )
        wa = want["first"]["vars"][key].get("attrs", {})
        for a, val in wa.items():
            check(
                ncio.same(g["attrs"].get(a), val, 1e-6),
                lambda: f"{key}: attribute {a}={g['attrs'].get(a)!r} not {val!r}",
            )
    for a, val in want["attrs"].items():
        check(got["attrs"].get(a) == val, lambda: f"global {a}={got['attrs'].get(a)!r} not {val!r}")


def run_merge(case, tmp) -> Out:
    """case = {"kinds": [...], "names": [...], "order": [...]}"""
    from cloudnetpy import concat_lib
    from cloudnetpy.exceptions import ValidTimeStampError

    dim = case.get("dim", "time")
    files, specs = [], []
    for i, kind in enumerate(case["kinds"]):
        spec = build(kind, i, dim, case.get("fmt", "NETCDF4_CLASSIC"))
        # Files sit in differently named folders so that only base names order them.
        folder = os.path.join(tmp, f"d{9 - i}")
        os.makedirs(folder)
        path = os.path.join(folder, case["names"][i] + ".nc")
        ncio.write(path, spec)
        files.append(path)
        specs.append(spec)
    given = [files[i] for i in case["order"]]
    before = [ncio.filehash(f) for f in files]
    out = os.path.join(tmp, "out.nc")
    kw = {k: case[k] for k in ("variables", "ignore", "new_attributes") if k in case}
    by_name = sorted(range(len(files)), key=lambda i: case["names"][i])
    want = model(
        [specs[i] for i in by_name],
        dim,
        case.get("variables"),
        case.get("ignore"),
        case.get("new_attributes"),
    )
    want_list = [
        files[i] for i in by_name if len(specs[i]["vars"][dim]["data"]) > 0
    ]
    try:
        res = concat_lib.concatenate_files(given, out, concat_dimension=dim, **kw)
    except ValidTimeStampError:
        check(want is None, "refused although there were records to merge")
        return Out(states=["refused"], transitions=len(files))
    check(want is not None, "merged files without any records instead of refusing")
    got = ncio.read(out)
    compare(got, want)
    check(
        [str(r) for r in res] == want_list,
        lambda: f"reports merging {[str(r) for r in res]}, merged {want_list}",
    )
    check([ncio.filehash(f) for f in files] == before, "an input file was modified")
    check(not any(p.endswith(".nc") and tmp in p for p in ncio.open_fds()), "file left open")
    return Out(states=[digest(got["vars"])], transitions=len(files))


def cases_merge(depth: int, kinds: list[str]):
    for n in range(1, depth + 1):
        for ks in itertools.product(kinds, repeat=n):
            for order in itertools.permutations(range(n)):
                names = ["a", "b", "c", "d"][:n]
                yield {"kinds": list(ks), "names": names, "order": list(order)}
    # names whose order differs from creation order
    for ks in itertools.product(("t1", "t2", "wide", "novar"), repeat=2):
        for names in (["b", "a"], ["x10", "x9"], ["B", "a"]):
            for order in ([0, 1], [1, 0]):
                yield {"kinds": list(ks), "names": names, "order": order}


def cases_options():
    opts_keep = [None, [], ["v1"], ["opt"], ["v1", "cube", "absent"], ["alt"]]
    opts_ign = [None, [], ["v1"], ["alt", "cube"], ["absent"]]
    opts_attr = [None, {"title": "merged"}, {"fresh": 3, "number": 9}]
    for keep, ign, att in itertools.product(opts_keep, opts_ign, opts_attr):
        for ks in (["t2"], ["t1", "t2"], ["t2", "novar"]):
            c = {"kinds": ks, "names": ["a", "b"][: len(ks)], "order": list(range(len(ks)))}
            if keep is not None:
                c["variables"] = keep
            if ign is not None:
                c["ignore"] = ign
            if att is not None:
                c["new_attributes"] = att
            yield c
    for dim in ("time", "profile"):
        for fmt in ("NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC"):
            for ks in itertools.product(("t1", "t2", "mask", "t0"), repeat=2):
                if fmt == "NETCDF3_CLASSIC" and "t0" in ks:
                    continue
                yield {"kinds": list(ks), "names": ["a", "b"], "order": [1, 0], "dim": dim, "fmt": fmt}


# ---- packed (scale/offset) variables -------------------------------------------------

PACK = [None, (0.1, 0.0), (0.5, 0.0), (0.1, 20.0)]


def run_packed(case, tmp) -> Out:
    from cloudnetpy import concat_lib

    files, want = [], []
    for i, p in enumerate(case["packs"]):
        vals = [i + 1.0, None if i % 2 else i + 1.5]
        var = dict(dims=["time"], data=vals, fill=-30000, dtype="i2")
        if p is None:
            var = dict(dims=["time"], data=vals, dtype="f4", fill=-999.0)
        else:
            var["attrs"] = {"scale_factor": p[0], "add_offset": p[1]}
        spec = {
            "dims": {"time": None, "range": 2},
            "vars": {
                "time": dict(dims=["time"], data=[i * 2.0, i * 2.0 + 1]),
                "range": dict(dims=["range"], data=[1.0, 2.0]),
                "x": var,
            },
        }
        files.append(ncio.write(os.path.join(tmp, f"f{i}.nc"), spec))
        want += vals
    out = os.path.join(tmp, "out.nc")
    concat_lib.concatenate_files(files, out)
    got = ncio.read(out)["vars"]["x"]["data"]
    ok = len(got) == len(want) and all(
        (g is None) == (w is None) and (g is None or abs(g - w) < 1e-3) for g, w in zip(got, want)
    )
    check(ok, lambda: f"packing {case['packs']}: values {got}, expected {want}")
    return Out(states=[digest(got)], transitions=len(files))


def cases_packed(depth):
    # the first file decides how values are stored; a packed first file can hold
    # any later file's values (all are multiples of its resolution)
    for n in range(1, depth + 1):
        for ps in itertools.product(range(len(PACK)), repeat=n):
            yield {"packs": [PACK[p] for p in ps]}


# ---- daily bundles ---------------------------------------------------------------------

DAY = datetime.date(2020, 6, 15)
STAMPS = {"P": -10, "D": 100, "E": 86390, "N": 86400 + 5}  # seconds from midnight
UNITS = {
    "s1970": ("seconds since 1970-01-01 00:00:00", lambda d: (d - datetime.datetime(1970, 1, 1)).total_seconds()),
    "s2001": ("seconds since 2001-01-01 00:00:00", lambda d: (d - datetime.datetime(2001, 1, 1)).total_seconds()),
}


def run_bundle(case, tmp) -> Out:
    """case: {"files": ["PD", "N", ...], "dim", "units", "bad": index or None}"""
    from cloudnetpy import concat_lib
    from cloudnetpy.exceptions import ValidTimeStampError

    dim = case["dim"]
    midnight = datetime.datetime.combine(DAY, datetime.time())
    unit, conv = UNITS[case["units"]]
    paths, chosen, recs = [], [], []
    for i, word in enumerate(case["files"]):
        path = os.path.join(tmp, f"{i}.nc")
        paths.append(path)
        torn = case.get("torn") if i == case.get("bad") else None
        if i == case.get("bad") and not torn:
            with open(path, "wb") as f:
                f.write(b"not a netcdf file")
            continue
        stamps = [conv(midnight + datetime.timedelta(seconds=STAMPS[c])) for c in word]
        spec = (
            {
                "dims": {dim: None, "range": 2},
                "vars": {
                    "time": dict(dims=[dim], data=stamps, attrs={"units": unit}, checksum=True),
                    "range": dict(dims=["range"], data=[1.0, 2.0]),
                    "x": dict(dims=[dim, "range"], checksum=True, data=[[i * 10.0 + k, i * 10.0 + k + 0.5] for k in range(len(word))]),
                    **(
                        {"profile": dict(dims=[dim], dtype="i4", data=list(range(len(word))))}
                        if dim == "profile"
                        else {}
                    ),
                    "minimum": dict(dims=[dim], data=[0.0] * len(word)),
                    "number_integrated_samples": dict(dims=[], data=5.0),
                },
                "attrs": {"idx": i},
            }
        )
        ncio.write(path, spec)
        if torn:
            ncio.spoil(path, spec, torn)
            continue
        if any(c in "DE" for c in word):
            chosen.append(path)
            recs += [[i * 10.0 + k, i * 10.0 + k + 0.5] for k in range(len(word))]
    out = os.path.join(tmp, "out.nc")
    before = [ncio.filehash(p) for p in paths]
    single = len(paths) == 1
    try:
        res = concat_lib.bundle_netcdf_files(paths, DAY, out, concat_dimensions=("time", "profile"))
    except ValidTimeStampError:
        check(not single and not chosen, "refused although a file has data of the date")
        return Out(states=["refused"], transitions=len(paths))
    if single:
        check(ncio.filehash(out) == before[0], "a single file must be passed on unchanged")
        check([str(r) for r in res] == paths, "single file not reported")
        return Out(states=["single"])
    check(chosen, "merged files that have no data of the requested date")
    check([str(r) for r in res] == chosen, lambda: f"used {res}, expected {chosen}")
    got = ncio.read(out)["vars"]
    check("minimum" not in got and "number_integrated_samples" not in got, "ignored variable kept")
    check(got["x"]["data"] == recs, lambda: f"records {got['x']['data']}, expected {recs}")
    check([ncio.filehash(p) for p in paths] == before, "an input file was modified")
    return Out(states=[digest(got["x"]["data"])], transitions=len(paths))


def run_damage(case, tmp) -> Out:
    """case: kinds, damaged {file: variable}"""
    from cloudnetpy import concat_lib

    files, specs, good = [], [], []
    damaged = {int(k): v for k, v in case["damaged"].items()}
    for i, kind in enumerate(case["kinds"]):
        spec = build(kind, i)
        for name in ("time", "v1", "cube", "opt", "range"):
            spec["vars"][name]["checksum"] = True
        path = ncio.write(os.path.join(tmp, f"{'abc'[i]}.nc"), spec)
        if i in damaged:
            ncio.spoil(path, spec, damaged[i])
        files.append(path)
        specs.append(spec)
        # gates are read only where they differ
        if i not in damaged or (damaged[i] == "range" and len(spec["vars"]["range"]["data"]) == len(specs[0]["vars"]["range"]["data"])):
            good.append(i)
    out = os.path.join(tmp, "out.nc")
    try:
        res = concat_lib.concatenate_files(files, out)
    except RuntimeError:
        check(0 in damaged, "refused although the first file is whole")
        return Out(states=["refused"], transitions=len(files))
    if 0 in damaged:
        check(damaged[0] == "range" and False, "the first file is damaged but is used")
    compare(ncio.read(out), model([specs[i] for i in good], "time"))
    check([str(r) for r in res] == [files[i] for i in good], lambda: f"reports {[str(r) for r in res]}, used {good}")
    return Out(states=[str(case)], transitions=len(files))


def cases_damage():
    names = ("time", "v1", "cube", "opt", "range")
    for kinds in (["t2", "t1", "t2"], ["mask", "wide", "t1"], ["t1", "narrow", "shift"]):
        for n in (1, 2):
            for where in itertools.combinations(range(3), n):
                for which in itertools.product(names, repeat=n):
                    yield {"kinds": kinds, "damaged": dict(zip(map(str, where), which))}


def cases_bundle(depth):
    words = ["D", "P", "N", "PD", "EN", "PN", "DE", "DP", "ND"]
    for n in range(1, depth + 1):
        for ws in itertools.product(words, repeat=n):
            yield {"files": list(ws), "dim": "time", "units": "s1970", "bad": None}
    for ws in itertools.product(words, repeat=2):
        yield {"files": list(ws), "dim": "profile", "units": "s2001", "bad": None}
        for bad in (1, 2):
            files = list(ws)
            files.insert(bad, "D")
            yield {"files": files, "dim": "time", "units": "s2001", "bad": bad}
            # the first file to be used must be whole
            for torn in ("time", "x") if set(ws[0]) & set("DE") else ("time",):
                yield {"files": files, "dim": "time", "units": "s2001", "bad": bad, "torn": torn}


def run(ctx) -> None:
    kinds = list(KINDS)
    depth = 4 if ctx.thorough else 3
    sub = kinds if not ctx.thorough else kinds
    cases = list(cases_merge(3, sub))
    if ctx.thorough:
        for ks in itertools.product(kinds, repeat=4):
            cases.append({"kinds": list(ks), "names": ["a", "b", "c", "d"], "order": [3, 1, 0, 2]})
    ctx.explore(
        "merge",
        run_merge,
        cases,
        bound=f"all sequences of <= {depth} files over {len(kinds)} file kinds "
        "(record counts 0-2, missing values, missing/extra variables, differing range gates), "
        "every order of the file list up to 3",
    )
    ctx.explore(
        "options",
        run_merge,
        list(cases_options()),
        bound="all combinations of 6 variable filters, 5 ignore lists, 3 attribute updates; "
        "2 record dimensions x 3 file formats",
    )
    ctx.explore(
        "packed",
        run_packed,
        list(cases_packed(4 if ctx.thorough else 3)),
        bound="all sequences of <= 3 (4) files over 4 packings",
    )
    ctx.explore(
        "bundle",
        run_bundle,
        list(cases_bundle(4 if ctx.thorough else 3)),
        bound="all sequences of <= 3 (4) files over 9 date patterns; unreadable or damaged file at each later position",
    )
    ctx.explore(
        "damage",
        run_damage,
        list(cases_damage()),
        bound="3 lists of 3 files, 1 or 2 of them damaged, in each of 5 variables",
    )
    ctx.assume("files are merged along one record dimension; groups are out of scope")
