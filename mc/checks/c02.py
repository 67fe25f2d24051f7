"""C02: appending to, truncating and joining files never loses or alters records."""

from __future__ import annotations

import itertools
import os

from .. import ncio
from ..core import Out, check, digest

LEVEL = "model_checking"

# Files that may be appended: their time stamps and oddities.
APPEND = {
    "past": dict(t=[1.0, 2.0]),
    "same": dict(t=[10.0, 11.0]),
    "overlap": dict(t=[10.5, 11.0, 11.5, 12.0]),
    "next": dict(t=[12.0, 13.0]),
    "one": dict(t=[14.0]),
    "far": dict(t=[11.25, 20.0, 21.0], mask=True),
    "thin": dict(t=[13.5, 15.0], drop=["cube", "n"]),
    "rich": dict(t=[12.5, 16.0], extra=True, fill=-7.0),
    "empty": dict(t=[]),
    "torn-time": dict(t=[12.5, 14.5], torn="time"),
    "torn-v": dict(t=[12.5, 14.5], torn="v"),
    "torn-cube": dict(t=[12.5, 14.5], torn="cube"),
    "junk": dict(junk=True),
    "absent": dict(absent=True),
}


def content(tag: int, kind: dict) -> dict:
    ts = kind["t"]
    b = 100.0 * tag

    def cell(i, j):
        return None if kind.get("mask") and (i + j) % 2 else b + 10 * i + j

    v = {
        "time": dict(dims=["time"], data=ts, attrs={"units": "hours since 2020-01-01"}),
        "range": dict(dims=["range"], data=[1.0 + tag, 2.0]),
        "n": dict(dims=["time"], dtype="i4", data=[int(b) + i for i in range(len(ts))]),
        "v": dict(
            dims=["time", "range"],
            dtype="f4",
            fill=kind.get("fill", -99.0),
            data=[[cell(i, j) for j in range(2)] for i in range(len(ts))],
        ),
        "tr": dict(
            dims=["range", "time"], data=[[b + 7 * j + i for i in range(len(ts))] for j in range(2)]
        ),
        "cube": dict(
            dims=["time", "range", "c"],
            data=[[[b + 50 * i + 3 * j + c for c in range(2)] for j in range(2)] for i in range(len(ts))],
        ),
        "pack": dict(
            dims=["time"],
            dtype="i2",
            fill=-32768,
            attrs={"scale_factor": 0.5, "add_offset": 0.0},
            data=[None if i % 2 else b / 2 + i for i in range(len(ts))],
        ),
        "alt": dict(dims=[], data=b),
    }
    if kind.get("extra"):
        v["other"] = dict(dims=["time"], data=[1.0] * len(ts))
    for d in kind.get("drop", []):
        del v[d]
    return {
        "dims": {"time": None, "range": 2, "c": 2},
        "vars": v,
        "attrs": {"title": f"file {tag}"},
        "format": "NETCDF4",
    }


def missing(shape):
    return None if not shape else [missing(shape[1:]) for _ in range(shape[0])]


def model_append(old: dict, new: dict) -> int:
    last = old["time"]["data"][-1]
    pick = [i for i, t in enumerate(new["vars"]["time"]["data"]) if t > last]
    if not pick:
        return 0
    for key, var in old.items():
        if "time" not in var["dims"]:
            continue
        shape = {"range": 2, "c": 2}
        if key not in new["vars"]:
            rest = [shape[d] for d in var["dims"][1:]]
            var["data"] = var["data"] + [missing(rest) for _ in pick]
        elif var["dims"][0] == "time":
            var["data"] = var["data"] + [new["vars"][key]["data"][i] for i in pick]
        else:
            var["data"] = [
                row + [new["vars"][key]["data"][j][i] for i in pick]
                for j, row in enumerate(var["data"])
            ]
    return 1


def run_append(case, tmp) -> Out:
    """case: list of file kinds appended one after another."""
    from cloudnetpy import concat_lib

    base = content(0, {"t": [10.0, 11.0]})
    old = ncio.write(os.path.join(tmp, "old.nc"), base)
    state = {k: dict(dims=v["dims"], data=v["data"]) for k, v in base["vars"].items()}
    seen = []
    for step, name in enumerate(case):
        kind = APPEND[name]
        path = os.path.join(tmp, f"new{step}.nc")
        if kind.get("absent"):
            want = 0
        elif kind.get("junk"):
            with open(path, "w") as f:
                f.write("not netCDF at all")
            want = 0
        else:
            spec = content(step + 1, kind)
            if "torn" in kind:
                spec["vars"][kind["torn"]]["checksum"] = True
            ncio.write(path, spec)
            if "torn" in kind:
                ncio.spoil(path, spec, kind["torn"])
            want = 0 if "torn" in kind else model_append(state, spec)
        h = ncio.filehash(path) if os.path.exists(path) else None
        res = concat_lib.update_nc(old, path)
        check(res == want, lambda: f"step {step} ({name}): returned {res}, expected {want}")
        if h is not None:
            check(ncio.filehash(path) == h, "the appended file was modified")
        else:
            check(not os.path.exists(path), "created the missing input")
        got = ncio.read(old)
        check(got["attrs"] == {"title": "file 0"}, lambda: f"global attributes {got['attrs']}")
        check(set(got["vars"]) == set(state), lambda: f"variables {sorted(got['vars'])}")
        for key, w in state.items():
            g = got["vars"][key]
            check(
                g["dims"] == w["dims"] and ncio.same(g["data"], w["data"], 1e-6),
                lambda: f"after {case[: step + 1]}: {key} = {g['data']}, expected {w['data']}",
            )
        check(not any(p.endswith(".nc") and tmp in p for p in ncio.open_fds()), "file left open")
        seen.append(digest(got["vars"]))
    return Out(states=seen, transitions=len(case))


def cases_append(depth, kinds):
    for n in range(1, depth + 1):
        yield from (list(x) for x in itertools.product(kinds, repeat=n))


# ---- truncation ------------------------------------------------------------------


def run_truncate(case, tmp) -> Out:
    from cloudnetpy import concat_lib

    n_rec, n_keep, dim, fmt = case["n"], case["keep"], case["dim"], case["fmt"]
    v = {
        dim: dict(dims=[dim], data=[float(i) for i in range(n_rec)], attrs={"units": "h"}),
        "range": dict(dims=["range"], data=[5.0, 6.0]),
        "v": dict(
            dims=[dim, "range"],
            dtype="f4",
            fill=-99.0,
            data=[[None if (i + j) % 2 else 10.0 * i + j for j in range(2)] for i in range(n_rec)],
            attrs={"long_name": "V"},
        ),
        "cube": dict(
            dims=[dim, "range", "c"],
            data=[[[100.0 * i + 10 * j + c for c in range(3)] for j in range(2)] for i in range(n_rec)],
        ),
        "pack": dict(
            dims=[dim],
            dtype="i2",
            fill=-32768,
            attrs={"scale_factor": 0.5, "add_offset": 3.0},
            data=[None if i % 2 else 4.5 + i for i in range(n_rec)],
        ),
        "prof": dict(dims=["range"], data=[1.5, 2.5]),
        "near": dict(dims=[dim + "_bounds"], data=[7.0, 8.0, 9.0, 10.0]),
        "alt": dict(dims=[], data=3.0),
    }
    if fmt.startswith("NETCDF4"):
        v["tr"] = dict(
            dims=["range", dim], data=[[7.0 * j + i for i in range(n_rec)] for j in range(2)]
        )
    spec = {
        "dims": {dim: None if case["unl"] else n_rec, "range": 2, "c": 3, dim + "_bounds": 4},
        "vars": v,
        "attrs": {"title": "x", "n": 4},
        "format": fmt,
    }
    src, dst = os.path.join(tmp, "a.nc"), os.path.join(tmp, "b.nc")
    ncio.write(src, spec)
    h = ncio.filehash(src)
    concat_lib.truncate_netcdf_file(src, dst, n_keep, dim_name=dim)
    check(ncio.filehash(src) == h, "the source file was modified")
    a, b = ncio.read(src), ncio.read(dst)
    check(a["attrs"] == b["attrs"], "global attributes changed")
    check(set(a["vars"]) == set(b["vars"]), "variables lost")
    for key, x in a["vars"].items():
        y = b["vars"][key]
        want = x["data"]
        if dim in x["dims"]:
            want = (
                want[:n_keep] if x["dims"][0] == dim else [row[:n_keep] for row in want]
            )
        check(
            y["dims"] == x["dims"] and ncio.same(y["data"], want),
            lambda: f"{key}: {y['data']} instead of {want}",
        )
        check(y["attrs"] == x["attrs"], lambda: f"{key}: attributes {y['attrs']} != {x['attrs']}")
    return Out(states=[digest(b)])


def cases_truncate(n_max):
    for n in range(1, n_max + 1):
        for keep in range(1, n_max + 2):
            for dim in ("time", "profile"):
                for fmt in ("NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC"):
                    for unl in (True, False):
                        yield dict(n=n, keep=keep, dim=dim, fmt=fmt, unl=unl)


# ---- text files ---------------------------------------------------------------------

BLOBS = [b"", b"a\n", b"no newline", b"\x00\xff\r\n", b"x" * 70000]


def run_text(case, tmp) -> Out:
    from cloudnetpy import concat_lib

    files = []
    for i, b in enumerate(case):
        files.append(os.path.join(tmp, f"f{9 - i}.txt"))
        with open(files[-1], "wb") as f:
            f.write(BLOBS[b])
    out = os.path.join(tmp, "out.txt")
    concat_lib.concatenate_text_files(files, out)
    with open(out, "rb") as f:
        data = f.read()
    check(data == b"".join(BLOBS[b] for b in case), "bytes differ")
    for i, b in enumerate(case):
        with open(files[i], "rb") as f:
            check(f.read() == BLOBS[b], "input changed")
    return Out(states=[digest(case)], transitions=len(case))


def run(ctx) -> None:
    kinds = list(APPEND)
    depth = 4 if ctx.thorough else 3
    ctx.explore(
        "append",
        run_append,
        list(cases_append(depth, kinds)),
        bound=f"all sequences of <= {depth} appends over {len(kinds)} kinds of file",
    )
    ctx.explore(
        "truncate",
        run_truncate,
        list(cases_truncate(4 if ctx.thorough else 3)),
        bound="record counts and limits up to 4(5) x 2 dimensions x 3 formats x fixed/unlimited",
    )
    ctx.explore(
        "text",
        run_text,
        [list(c) for n in range(0, 4) for c in itertools.product(range(len(BLOBS)), repeat=n)],
        bound="all sequences of <= 3 files over 5 contents",
    )
    ctx.assume("the file appended to holds at least one record and uses the same time unit")
