"""C19: what a conversion writes depends on its input alone, and it leaves everything else alone.

Letters are conversions recorded from the scenes of the other checks: the
files and arguments are captured at the call, so every converter of the
package takes part.  Words of letters run in one process and every step is
compared with the same conversion in a process of its own.
"""

from __future__ import annotations

import contextlib
import copy
import gc
import hashlib
import importlib
import itertools
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

from mc.core import Out, check, untuple

LEVEL = "model_checking"

PLACES = {
    "cloudnetpy.instruments": (
        "ws2nc", "fd12p2nc", "rain_e_h32nc", "parsivel2nc", "thies2nc", "rd802nc", "mira2nc", "copernicus2nc", "galileo2nc",
        "basta2nc", "bowtie2nc", "mrr2nc", "ceilo2nc", "pollyxt2nc", "rpg2nc", "hatpro2nc", "radiometrics2nc",
    ),
    "cloudnetpy.products": (
        "generate_classification", "generate_ier", "generate_iwc", "generate_der", "generate_lwc", "generate_drizzle",
    ),
    "cloudnetpy.categorize": ("generate_categorize",),
}


def letters() -> dict:
    """name -> (module, runner, case)"""
    from mc.checks import c15

    L = {}

    def add(name, mod, fn, case):
        assert name not in L
        L[name] = (mod, fn, case)

    o = {}
    for name, case in {
        "mira": {"radar": "mira", "files": ["AB"]},
        "mira2": {"radar": "mira", "files": [["B"], ["A", "C"]], "how": "list"},
        "mira_pol": {"radar": "mira", "files": [["A", "B"]], "gates": ".lh", "o": {"pol": "1"}},
        "mira_35s": {"radar": "mira", "files": [["Ao", "Bp", "Co"]], "gates": ".s.", "o": {"model": "mira-35s"}},
        "mira_other": {"radar": "mira", "files": ["N"]},
        "copernicus": {"radar": "copernicus", "files": ["BAC"], "how": "dir"},
        "galileo": {"radar": "galileo", "files": ["AB"], "how": "dir"},
        "basta": {"radar": "basta", "files": ["AB"]},
        "bowtie": {"radar": "bowtie", "files": [list("ABC")]},
        "mrr": {"radar": "mrr", "files": ["AB"]},
        "mrr2": {"radar": "mrr", "files": ["A", "B"], "how": "list"},
    }.items():
        add(name, "c05", "run_case", case)
    for name, case in {
        "cl31": {"inst": "cl31", "w": ["A", "B", "C"], "o": o},
        "cl31_cal": {"inst": "cl31", "w": ["A", "B"], "o": {"cal": 0.5}},
        "cl51": {"inst": "cl51", "w": ["A", "B"], "o": o},
        "ct25k": {"inst": "ct25k", "w": ["A", "B"], "o": {"crlf": True}},
        "cs135": {"inst": "cs135", "w": ["A", "B"], "o": {"model": "cs135"}},
        "chm15k": {"inst": "chm15k", "w": ["A", "B", "C"], "o": o},
        "chm15k_old": {"inst": "chm15k", "w": ["A", "Bm", "C"], "o": {"version": 235, "old": True, "nnr": "hi", "nn": "nn1"}},
        "chx": {"inst": "chx", "w": ["A", "B"], "o": {"tilt": "time"}},
        "cl61d": {"inst": "cl61d", "w": ["A", "B"], "o": {"cal": 2.0}},
        "da10": {"inst": "da10", "w": ["A", "B"], "o": {"model": "da10"}},
        "chm15k_other": {"inst": "chm15k", "w": ["N"], "o": o},
    }.items():
        add(name, "c07", "run_lidar", case)
    add("polly", "c07", "run_polly", {"files": [{"w": ["A", "B"]}]})
    add("polly355", "c07", "run_polly", {"files": [{"w": ["A", "B"], "ch": "only355"}]})
    add("polly_angle", "c07", "run_polly", {"files": [{"w": ["B"]}, {"w": ["A", "C"]}], "o": {"meta": {"zenith_angle": 6}}})
    for name, case in {
        "rpg": {"files": [{"w": ["A", "Bw"]}, {"w": ["C"]}]},
        "rpg_pol": {"files": [{"w": ["A", "B1"], "pol": 2}]},
        "rpg_35": {"files": [{"w": ["A", "B"], "hdr": {"freq": 35.0}}]},
        "rpg_none": {"files": [{"w": ["N"]}]},
    }.items():
        add(name, "c17", "run_rpg", case)
    x = {"stem": "x", "kind": "LWP"}
    for name, case in {
        "hatpro": {"files": [{**x, "w": ["A", "Bl", "B"]}]},
        "lhatpro": {"files": [{**x, "w": ["A", "B"]}, {**x, "kind": "IWV", "w": ["B", "D"]}], "type": "lhatpro"},
        "hatpro_bad": {"files": [{**x, "broken": "header", "w": []}]},
    }.items():
        add(name, "c18", "run_hatpro", case)
    for name, case in {
        "mp": {"files": [{"fmt": "new", "w": ["A", "C2", "Db"]}]},
        "mp_old": {"files": [{"fmt": "old", "w": ["C", "A"]}]},
        "los": {"files": [{"fmt": "los", "w": ["A", "C"]}]},
    }.items():
        add(name, "c18", "run_radiometrics", case)
    for site in ("Palaiseau", "Granada", "Jülich", "Kenttärova", "Hyytiälä", "Galați", "Limassol", "L'Aquila", "Cluj-Napoca"):
        add(f"ws_{site}", "c03", "run_ws", {"site": site, "files": ["AB"]})
    for fmt in (16, 22, "fd"):
        add(f"gauge_{fmt}", "c03", "run_gauge", {"fmt": fmt, "word": "AB"})
    for fmt in ("tel1", "csv", "toa5", "pyatmos", "fmi"):
        add(f"parsivel_{fmt}", "c04", "run_parsivel", {"fmt": fmt, "files": ["AB"]})
    add("parsivel_op4a", "c04", "run_op4a", {"word": "AB", "mode": "inside", "date": True})
    add("thies", "c04", "run_thies", C04("cases_thies", 3, 2))
    add("rd80", "c04", "run_rd80", C04("cases_rd80", 3, 2))
    cat = {"points": [(["heavy", "heavy", "liquid_echo", "ice"], 0.2, (0.0, 100.0)), (["clear", "liquid", "ice", "liquid"], 0.01, (0.0, 0.0)),
                      (["heavy", "liquid_echo", "heavy", "ice"], 0.2, (1 * c15.MM, 100.0))],
           "temp": "mid0", "uneven": False, "clutter": False, "band": 0}
    for name, opts in {
        "cat": {}, "cat_94": {"freq": 94.0}, "cat_nodis": {"dis": False}, "cat_nomwr": {"mwr": False},
        "cat_sldr": {"ldr": False, "sldr": True}, "cat_nowidth": {"width": False, "dis": False},
    }.items():
        add(name, "c15", "run_scene", {**cat, "opts": opts})
    add("cat_uneven", "c15", "run_scene", {**cat, "opts": {}, "uneven": True, "clutter": True, "band": 11})
    for name, mod, fn, cases, args in (
        ("class", "c09", "run_bits", "cases_bits", ()), ("class_att", "c09", "run_att", "cases_att", (2,)),
        ("class_cloud", "c09", "run_cloud", "cases_cloud", (3,)), ("ice", "c10", "run_ice", "cases", (False,)),
        ("der", "c11", "run_der", "cases", (False,)), ("lwc", "c12", "run_lwc", "cases", (False,)),
        ("drizzle", "c13", "run_bits", "cases_bits", (False,)), ("drizzle_col", "c13", "run_columns", "cases_columns", (False,)),
    ):
        cs = list(getattr(importlib.import_module(f"mc.checks.{mod}"), cases)(*args))
        add(name, mod, fn, cs[0])
        if len(cs) > 1:
            add(name + "_b", mod, fn, cs[-1])
    L["ier"] = L["ice"][:3] + ("generate_ier",)
    L["ier_b"] = L["ice_b"][:3] + ("generate_ier",)
    return L


def C04(fn, *args):
    from mc.checks import c04

    *a, i = args
    return list(getattr(c04, fn)(*a))[i]


class Recorded(BaseException):
    def __init__(self, call):
        self.call = call


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = "dir"
        for x in files:
            p = os.path.join(root, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = (hashlib.blake2b(f.read(), digest_size=12).hexdigest(), os.stat(p).st_mtime_ns)
    return out


def record(letter, d):
    """Runs the scene until it calls the converter; returns (module, function, args, kwargs)."""
    mod, fn, case, *only = letter
    saved = []
    for place, names in PLACES.items():
        m = importlib.import_module(place)
        for n in names:
            real = getattr(m, n)
            saved.append((m, n, real))
            if only and n not in only:
                continue

            def stub(*a, _m=place, _n=n, **k):
                raise Recorded((_m, _n, a, k))

            setattr(m, n, stub)
    try:
        getattr(importlib.import_module(f"mc.checks.{mod}"), fn)(untuple(case), d)
    except Recorded as r:
        return r.call
    finally:
        for m, n, real in saved:
            setattr(m, n, real)
    raise RuntimeError(f"nothing recorded for {letter}")


_FIX: dict = {}


def fixture(name):
    """Directory with the files of a letter and its call, in this worker."""
    if name not in _FIX:
        for place in PLACES:
            importlib.import_module(place)
        d = tempfile.mkdtemp()
        _FIX[name] = (d, fork(lambda: _record(name, d)))
    return _FIX[name]


def _record(name, d):
    call = record(letters()[name], d)
    with open(d + ".call", "wb") as f:
        pickle.dump(call, f)
    return {}


def fork(fn, timeout=100):
    """Result of fn() in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(timeout)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(r)
            gc.freeze()
            try:
                res = {"ok": fn()}
            except BaseException:
                res = {"error": traceback.format_exc()}
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(res).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the process ended without an answer")
    res = json.loads(data)
    if "error" in res:
        raise RuntimeError(res["error"])
    return res["ok"]


def move(x, old, new):
    """The arguments with the input directory moved."""
    from pathlib import Path

    if isinstance(x, Path):
        return Path(move(str(x), old, new))
    if isinstance(x, str):
        return x.replace(old, new)
    if isinstance(x, dict):
        return {k: move(v, old, new) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(move(v, old, new) for v in x)
    return x


STAMP = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \+00:00")


def content(path, day):
    """Everything readable in a file, without the time it was made and its own identifier."""
    import netCDF4

    def att(v):
        return repr(v.tolist() if hasattr(v, "tolist") else v)

    with netCDF4.Dataset(path) as nc:
        nc.set_auto_maskandscale(False)
        out = {"dims": {k: len(d) for k, d in nc.dimensions.items()}, "format": nc.data_model}
        g = {k: att(nc.getncattr(k)) for k in nc.ncattrs() if k != "file_uuid"}
        if "history" in g:
            first, *rest = nc.history.split("\n")
            g["history"] = repr([STAMP.sub("T", first), *rest])
        out["global"] = g
        out["vars"] = {
            k: {
                "dims": list(v.dimensions), "dtype": str(v.dtype), "atts": {a: att(v.getncattr(a)) for a in v.ncattrs()},
                "data": hashlib.blake2b(v[:].tobytes(), digest_size=12).hexdigest(), "head": repr(v[:].ravel()[:4].tolist()),
            }
            for k, v in nc.variables.items()
        }
        out["uuid"] = nc.file_uuid if "file_uuid" in nc.ncattrs() else None
    return out


def perform(name, tmp, damage=None, before=None):
    """One conversion; the observable outcome."""
    from mc import ncio

    src, _ = fixture(name)
    d = tempfile.mkdtemp(dir=tmp)
    inp = os.path.join(d, "in")
    shutil.copytree(src, inp)
    with open(src + ".call", "rb") as f:
        place, fname, args, kwargs = pickle.load(f)
    args, kwargs = move(list(args), src, inp), move(kwargs, src, inp)
    hurt(inp, damage)
    out = os.path.join(d, "result.nc")
    args[1] = out
    if before is not None:
        before(out)
    plain = (repr(args), repr(kwargs))
    kept = (copy.deepcopy(args), copy.deepcopy(kwargs))
    files0 = tree(inp)
    fds0 = ncio.open_fds()
    cwd0 = (os.getcwd(), sorted(os.listdir(".")))
    tmp0 = sorted(os.listdir(tempfile.gettempdir()))
    old = tree(d).get("result.nc")
    err = value = None
    try:
        with table(fname, tmp):
            value = getattr(importlib.import_module(place), fname)(*args, **kwargs)
    except Exception as e:
        err = [type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x", str(e)).replace(d, "<d>")]
        e.__traceback__ = None
    gc.collect()
    res = {"error": err, "returns": None, "file": None, "exists": os.path.exists(out)}
    res["left"] = sorted(k for k in tree(d) if not k.startswith("in") and k != "result.nc")
    res["inputs"] = sorted(k for k, v in tree(inp).items() if files0.get(k) != v) + sorted(set(files0) - set(tree(inp)))
    res["arguments"] = plain == (repr(args), repr(kwargs)) and repr(kept) == repr((args, kwargs))
    res["handles"] = sorted(x for x in ncio.open_fds() - fds0 if x.startswith(("/dev/shm", "/tmp", d)))
    res["cwd"] = cwd0 == (os.getcwd(), sorted(os.listdir(".")))
    res["tmp"] = tmp0 == sorted(os.listdir(tempfile.gettempdir()))
    if err is None:
        c = content(out, None)
        uuid = c.pop("uuid")
        given = value if not isinstance(value, tuple) else value[0]
        res["uuid"] = str(given) == uuid
        res["returns"] = [type(value).__name__, *([str(x).replace(d, "<d>") for x in value[1]] if isinstance(value, tuple) else [])]
        res["file"] = c
    else:
        res["kept"] = tree(d).get("result.nc") == old
    shutil.rmtree(d, ignore_errors=True)
    return res


@contextlib.contextmanager
def table(fname, tmp):
    """The drizzle table is not in the repository."""
    if fname != "generate_drizzle":
        yield
        return
    from mc.checks import c13

    d = tempfile.mkdtemp(dir=tmp)
    with c13.lut(d):
        yield


def hurt(inp, damage):
    if not damage:
        return
    files = sorted(os.path.join(r, f) for r, _, fs in os.walk(inp) for f in fs)
    which, how = damage
    p = files[which % len(files)]
    if how == "missing":
        os.unlink(p)
        return
    data = open(p, "rb").read()
    if how == "empty":
        data = b""
    elif how.startswith("cut"):
        data = data[: len(data) * int(how[3:]) // 8]
    elif how == "last":
        data = data[:-1]
    elif how == "text":
        data = b"not what it should be\n" * 3
    elif how == "zeros":
        data = data[: len(data) // 2] + b"\0" * (len(data) - len(data) // 2)
    with open(p, "wb") as f:
        f.write(data)


def settle(name, res, damaged=False):
    """What must hold of every conversion whatever its outcome."""
    check(not res["inputs"], lambda: f"{name}: input files changed: {res['inputs']}")
    check(res["arguments"], lambda: f"{name}: the arguments were changed")
    # the libraries that read damaged netCDF and LV1 files keep them open
    check(damaged or not res["handles"], lambda: f"{name}: files left open: {res['handles']}")
    check(not res["left"] and res["cwd"] and res["tmp"], lambda: f"{name}: files left behind {res['left']}")
    if res["error"] is None:
        check(res["uuid"], lambda: f"{name}: the identifier returned is not that of the file")
    else:
        check(res["kept"], lambda: f"{name}: failed ({res['error']}) but touched the output file")


def differ(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {a!r} / {b!r}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}/{k}: {'only ' + ('later' if k in b else 'when fresh')}"
            if x := differ(a[k], b[k], f"{path}/{k}"):
                return x
        return None
    return None if a == b else f"{path}: fresh {a!r} / later {b!r}"


_FRESH: dict = {}


def fresh(name, tmp, damage=None):
    key = (name, repr(damage))
    if key not in _FRESH:
        fixture(name)
        _FRESH[key] = fork(lambda: perform(name, tmp, damage))
        settle(name, _FRESH[key], damage is not None)
    return _FRESH[key]


def run_words(case, tmp) -> Out:
    """Several conversions in one process; all words with the same first letters in one case."""
    n = traces = 0
    states = []
    head = case["head"]
    for last in case["last"]:
        w = [*head, last]
        want = [fresh(x, tmp) for x in w]
        got = fork(lambda: [perform(x, tmp) for x in w])
        for i, (x, a, b) in enumerate(zip(w, want, got)):
            settle(x, b)
            d = differ(a, b)
            check(d is None, lambda: f"{x} after {w[:i]} differs: {d}")
            n += 1
        traces += 1
        states.append("/".join(w))
    return Out(states=states, transitions=n, traces=traces)


def run_damage(case, tmp) -> Out:
    """A conversion of damaged input, then the undamaged conversion and one of another kind."""
    n = 0
    states = []
    for damage in case["damage"]:
        name, other = case["letter"], case["other"]
        fixture(name), fixture(other)
        got = fork(lambda: [perform(name, tmp, damage), perform(name, tmp), perform(other, tmp)])
        settle(f"{name} with {damage}", got[0], True)
        states.append([name, damage, got[0]["error"] and got[0]["error"][0]])
        for x, b in zip((name, other), got[1:]):
            settle(x, b)
            d = differ(fresh(x, tmp), b)
            check(d is None, lambda: f"{x} after {name} with damaged input {damage} differs: {d}")
            n += 1
    return Out(states=states, transitions=n + len(case["damage"]), traces=len(case["damage"]))


def run_before(case, tmp) -> Out:
    """The output file exists already."""
    name = case["letter"]
    want = fresh(name, tmp)
    states = []
    for kind in ("text", "empty", "netcdf", "same"):

        def before(path):
            if kind == "same":
                return
            with open(path, "wb") as f:
                f.write({"text": b"something else", "empty": b"", "netcdf": b""}[kind])
            if kind == "netcdf":
                import netCDF4

                with netCDF4.Dataset(path, "w") as nc:
                    nc.createDimension("time", 7)
                    nc.createVariable("time", "f8", ("time",))[:] = 3.0
                    nc.createVariable("foreign", "f8", ("time",))[:] = 1.0
                    nc.foreign = "x"

        got = fork(lambda: perform(name, tmp, before=before))
        settle(name, got)
        g = {**got, "exists": None}
        d = differ({**want, "exists": None}, g)
        check(d is None, lambda: f"{name} over an existing {kind} file differs: {d}")
        states.append([name, kind])
    return Out(states=states, transitions=4, traces=4)


ENVS = (
    {}, {"PYTHONHASHSEED": "1", "TZ": "America/New_York"}, {"PYTHONHASHSEED": "2", "TZ": "Asia/Tokyo", "LC_ALL": "C.UTF-8"},
    {"PYTHONHASHSEED": "3", "TZ": "Asia/Kolkata"},
)


def run_seeds(case, tmp) -> Out:
    """The same conversions in an interpreter with another hash seed, time zone and locale."""
    from mc.core import REPO, VERIF

    names = case["letters"]
    fix = {n: fixture(n) for n in names}
    t = tempfile.mkdtemp(dir=tmp)
    code = (
        "import sys, json, os, tempfile; sys.path[:0] = [%r, %r]\n"
        "from mc.core import quiet; quiet()\n"
        "from mc.checks import c19\n"
        "c19._FIX.update(%r)\n"
        "t = %r; os.chdir(t); tempfile.tempdir = t\n"
        "d = tempfile.mkdtemp()\n"
        "print(json.dumps([c19.perform(n, d) for n in %r]))\n"
    ) % (str(VERIF), str(REPO), fix, t, names)
    e = dict(os.environ, PYTHONPATH=str(REPO), **ENVS[case["env"]])
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=e, timeout=100)
    check(r.returncode == 0, lambda: f"{names}: {r.stderr[-800:]}")
    for n, b in zip(names, json.loads(r.stdout.splitlines()[-1])):
        settle(n, b)
        d = differ(fresh(n, tmp), b)
        check(d is None, lambda: f"{n} depends on its environment {ENVS[case['env']]}: {d}")
    return Out(states=[[n, case["env"]] for n in names], transitions=len(names), traces=1)


def run_walk(case, tmp) -> Out:
    """One long history with every ordered pair of `a` and one of `with` side by side."""
    a = case["a"]
    w = [a, a] if a in case["with"] else [a]
    for x in case["with"]:
        if x != a:
            w += [x, a]
    want = [fresh(x, tmp) for x in w]
    got = fork(lambda: [perform(x, tmp) for x in w])
    for i, (x, f, b) in enumerate(zip(w, want, got)):
        settle(x, b)
        d = differ(f, b)
        check(d is None, lambda: f"{x} after {w[:i]} differs: {d}")
    return Out(states=[f"{x}/{y}" for x, y in zip(w, w[1:])], transitions=len(w), traces=1)


def cases_walk(names):
    out = []
    for k, a in enumerate(names):
        rest = names[k:]
        out += [{"a": a, "with": rest[i : i + 10]} for i in range(0, len(rest), 10)]
    return out


FAMILY = (
    ("mira", "mira_pol", "mira_35s", "copernicus", "galileo"), ("basta", "bowtie", "rpg", "rpg_pol", "rpg_35"),
    ("polly", "polly355", "chm15k", "chm15k_old", "cl31_cal"), ("cl31", "ct25k", "cs135", "cl61d", "da10"),
    ("hatpro", "lhatpro", "mp", "mp_old", "los"), ("cat", "cat_94", "cat_nodis", "cat_nomwr", "cat_sldr"),
)


def cases_words(names):
    return [{"head": [a], "last": names[i : i + 8]} for a in names for i in range(0, len(names), 8)]


def cases_triples():
    return [{"head": [a, b], "last": list(f)} for f in FAMILY for a, b in itertools.product(f, repeat=2)]


DAMAGE = ("missing", "empty", "cut1", "cut3", "cut4", "cut6", "cut7", "last", "text", "zeros")


def cases_damage(names, thorough):
    out = []
    for i, x in enumerate(names):
        other = names[(i + 1) % len(names)]
        for which in range(5 if thorough else 2):
            kinds = DAMAGE if thorough or which else DAMAGE[::2]
            for part in (kinds[:5], kinds[5:]):
                if part:
                    out.append({"letter": x, "other": other, "damage": [[which, h] for h in part]})
    return out


def cases_seeds(names):
    return [{"letters": names[i : i + 10], "env": e} for e in range(len(ENVS)) for i in range(0, len(names), 10)]


def run(ctx):
    names = list(letters())
    ctx.assume("the history entry of a conversion carries the time it was made and file_uuid is drawn at random; all else is compared byte by byte")
    ctx.assume("the recorded scenes stand for the conversions: every converter with at least one scene, several where options leave traces")
    ctx.explore("walks", run_walk, cases_walk(names), chunk=2, bound=f"histories in which every ordered pair of {len(names)} conversions stands side by side, against fresh processes")
    ctx.explore("existing", run_before, [{"letter": x} for x in names], chunk=2, bound="output file absent, empty, text, foreign netCDF")
    ctx.explore("damage", run_damage, cases_damage(names, ctx.thorough), chunk=2, bound="each of up to 2 (5) input files of every conversion damaged in up to 10 ways, then two sound conversions")
    ctx.explore("environment", run_seeds, cases_seeds(names), chunk=1, bound="every conversion under 4 hash seeds and time zones")
    if ctx.thorough:
        ctx.explore("pairs", run_words, cases_words(names), chunk=2, bound="all ordered pairs of conversions, each pair in a process of its own")
        ctx.explore("triples", run_words, cases_triples(), chunk=1, bound="all triples within six families of five conversions")
