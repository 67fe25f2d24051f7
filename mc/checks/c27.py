"""C27: the command line makes each product from the files it is meant to come from."""

from __future__ import annotations

import argparse
import builtins
import contextlib
import datetime
import gzip
import io
import itertools
import logging
import os
import sys
import uuid
from pathlib import Path

from mc.core import Out, check

LEVEL = "model_checking"
DATE, DAY, SITE = "2026-03-07", "20260307", "granada"
RAW = {  # product: instruments
    "radar": ["mira-35", "rpg-fmcw-94", "basta", "copernicus", "galileo"], "lidar": ["cl61d", "chm15k", "pollyxt"], "disdrometer": ["parsivel", "thies-lnm"],
    "mwr": ["hatpro"], "mwr-l1c": ["hatpro"], "mrr": ["mrr-pro"], "weather-station": ["weather-station"],
}
DERIVED = {
    "categorize": ["radar", "lidar", "disdrometer", "mwr", "model"], **{p: ["categorize"] for p in ("classification", "iwc", "lwc", "drizzle", "der", "ier")},
    "mwr-single": ["mwr-l1c"], "mwr-multi": ["mwr-l1c"], "epsilon-radar": ["radar", "model"], "l3-cf": [], "l3-iwc": [], "l3-lwc": [],
}
L3 = {"l3-cf": "categorize", "l3-iwc": "iwc", "l3-lwc": "lwc"}
CONVERTER = {"mira-35": "mira2nc", "rpg-fmcw-94": "rpg2nc", "basta": "basta2nc", "copernicus": "copernicus2nc", "galileo": "galileo2nc", "cl61d": "ceilo2nc", "chm15k": "ceilo2nc", "pollyxt": "pollyxt2nc", "parsivel": "parsivel2nc", "thies-lnm": "thies2nc", "mrr-pro": "mrr2nc", "weather-station": "ws2nc"}
FOLDER = ("rpg2nc", "hatpro2nc", "hatpro2l1c")
GEOPHYSICAL = [*DERIVED]


def pid(name):
    return f"https://hdl.handle.net/21.12132/3.{name.encode().hex()[::-1]:0<16.16}"


def short(p):
    return p.rsplit(".", 1)[-1][:8]


class World:
    """The data portal."""

    def __init__(self, raw, portal, calibration=None, checksum=False):
        """raw: {(device, instrument): {file name: content}}; portal: {(product, device or model): content}"""
        from cloudnet_api_client import containers as c

        self.c, self.downloads, self.cal, self.raw, self.portal = c, [], calibration or {}, raw, portal
        self.site = c.Site(SITE, "Granada", None, 37.2, -3.6, 680, None, None, "Spain", "ES", None, frozenset({"cloudnet"}), None)
        self.content = {}
        self.checksum = checksum

    def inst(self, device, kind):
        return self.c.Instrument(kind, kind, "x", f"Device {device}", uuid.uuid5(uuid.NAMESPACE_DNS, device), pid(device), (), None)

    def base(self, name, where, content):
        url = f"https://cloudnet.fmi.fi/api/{where}/{name}"
        self.content[url] = content
        t = datetime.datetime(2026, 3, 8)
        return (uuid.uuid5(uuid.NAMESPACE_DNS, url), "x", len(content), name, url, datetime.date.fromisoformat(DATE), t, t, self.site)

    # the interface of the client
    def sites(self, *a, **k):
        return [self.site]

    def models(self):
        return [self.c.Model(m, m.upper(), i, m.split("-")[0], None, None) for i, m in enumerate(("ecmwf", "gdas1"))]

    def products(self, *a, **k):
        return [self.product(p) for p in (*RAW, *DERIVED)]

    def product(self, name):
        kind = "evaluation" if name in L3 else "geophysical" if name in GEOPHYSICAL else "instrument"
        return self.c.ExtendedProduct(name, name, frozenset({kind}), False, frozenset(RAW.get(name, [])), frozenset(DERIVED.get(name, [])), frozenset())

    def calibration(self, instrument_pid, date):
        from cloudnet_api_client import CloudnetAPIError

        check(str(date) == DATE, f"calibration of {date}")
        if instrument_pid not in self.cal:
            raise CloudnetAPIError("no calibration")
        return {"data": self.cal[instrument_pid]}

    def raw_files(self, site_id=None, date=None, instrument_id=None, status=None, **k):
        check(site_id == SITE and str(date) == DATE and set(status) == {"uploaded", "processed"}, f"raw files of {site_id} {date} {status}")
        wanted = [instrument_id] if isinstance(instrument_id, str) else list(instrument_id)
        return [self.c.RawMetadata(*self.base(n, f"raw/{dev}", text), "uploaded", self.inst(dev, kind), frozenset()) for (dev, kind), files in self.raw.items() if kind in wanted for n, text in files.items()]

    def files(self, product_id=None, date=None, site_id=None, model_id=None, **k):
        check(site_id == SITE and str(date) == DATE, f"files of {site_id} {date}")
        out = []
        for (product, source), text in self.portal.items():
            if product != product_id or (product == "model" and source != (model_id or source)):
                continue
            if product == "model" and model_id is None and out:
                continue  # the best model only
            device = source if product in ("radar", "lidar", "disdrometer", "mwr", "mwr-l1c", "doppler-lidar") else None
            kind = device and device.split("/")[0]
            inst = self.inst(device, kind) if device else None
            tail = f"{kind}{'-l1c' * (product == 'mwr-l1c')}_{short(pid(device))}" if device else source if product == "model" else product
            name = f"{DAY}_{SITE}_{tail}.nc"
            t = datetime.datetime(2026, 3, 7)
            info = self.product(product) if product in RAW or product in DERIVED else self.c.ExtendedProduct(product, product, frozenset({"model" if product == "model" else "instrument"}), False, frozenset(), frozenset(), frozenset())
            out.append(self.c.ProductMetadata(*self.base(name, f"download/product/{product}/{source}", text), info, inst, None, False, False, "", None, None, 100.0, "scheduled", "HDF5", t, t, None))
        return out

    def download(self, metadata, output_directory=".", *a, **k):
        out = []
        for m in metadata if isinstance(metadata, list) else [metadata]:
            path = Path(output_directory) / m.download_url.split("/")[-1]
            self.downloads.append(str(path))
            text = self.content[m.download_url]
            text = text if isinstance(text, bytes) else text.encode()
            if not (path.exists() and (path.read_bytes() == text if self.checksum else path.stat().st_size == m.size)):
                path.write_bytes(text)
            out.append(path)
        return out


@contextlib.contextmanager
def stage(calls, answers=(), order=None, fail=()):
    """Stand-ins for everything that computes; they write what they were given."""
    import cloudnetpy.instruments
    import cloudnetpy.model_evaluation.plotting.plotting as l3plot
    import cloudnetpy.model_evaluation.products.product_resampling as l3
    import cloudnetpy.products
    from cloudnetpy import cli, concat_lib

    undo = []

    def patch(name, new, *modules):
        for mod in (cli, *modules):
            if hasattr(mod, name):
                undo.append((mod, name, getattr(mod, name)))
                setattr(mod, name, new)

    def text(x):
        if isinstance(x, (list, tuple)):
            return ",".join(text(y) for y in x)
        p = Path(x)
        if p.is_dir():
            return ",".join(text(y) for y in sorted(p.iterdir()) if y.suffix != ".gz")
        return p.read_text()

    def convert(name):
        def run(files, out, site_meta, uuid=None, date=None):
            check(str(date) == DATE, f"{name} for {date}")
            Path(out).write_text(f"{name}({text(files)})")
            calls.append((name, str(out), site_meta, Path(files).name if isinstance(files, (str, Path)) else [Path(f).name for f in files]))

        return run

    for name in ("mira2nc", "rpg2nc", "basta2nc", "copernicus2nc", "galileo2nc", "parsivel2nc", "thies2nc", "pollyxt2nc", "ceilo2nc", "hatpro2nc", "hatpro2l1c", "mrr2nc", "ws2nc"):
        patch(name, convert(name), cloudnetpy.instruments)

    def categorize(files, out, uuid=None, options=None):
        for k, v in files.items():
            check(v is not None and os.path.isfile(v), f"{k} of categorize is {v}")
        want = ("radar", "lidar", "model", "mwr", "disdrometer")
        Path(out).write_text("categorize(" + ";".join(f"{k}={text(files[k])}" for k in want if k in files) + ")")
        calls.append(("categorize", str(out), options, None))

    patch("generate_categorize", categorize)

    def derive(name):
        def run(*files, uuid=None):
            *given, out = files
            Path(out).write_text(f"{name}({text(given)})")
            calls.append((name, str(out), None, None))

        return run

    for p in DERIVED:
        if p != "categorize" and p not in L3 and p != "epsilon-radar":
            patch(f"generate_{p.replace('-', '_')}", derive(p), cloudnetpy.products)
    patch("generate_epsilon_from_radar", derive("epsilon-radar"), cloudnetpy.products)

    def level3(model, obs, model_files, product_file, output_file, **k):
        given = model_files if isinstance(model_files, list) else [model_files]
        Path(output_file).write_text(f"l3-{obs}({model}:{text(given)},{text(product_file)})")
        calls.append((f"l3-{obs}", str(output_file), k, None))

    patch("process_L3_day_product", level3, l3)

    def bundle(files, date, out, **k):
        check(str(date) == DATE, f"bundle of {date}")
        Path(out).write_text(text(list(files)))
        calls.append(("bundle", str(out), k, None))
        return list(files)

    patch("bundle_netcdf_files", bundle, concat_lib)

    def figure(path, variables, *, show=True, output_filename=None, options=None):
        from cloudnetpy.exceptions import PlottingError

        check(os.path.isfile(path), f"figure of {path}, which is not there")
        calls.append(("figure", str(path), variables, output_filename and str(output_filename)))
        if "fails" in variables:
            raise PlottingError("nothing to plot")

    patch("generate_figure", figure)

    def level3_figure(path, product, *a, **k):
        calls.append(("l3figure", str(path), product, k.get("save_path")))

    patch("generate_L3_day_plots", level3_figure, l3plot)
    given = list(answers)

    def ask(*a):
        if not given:
            raise EOFError
        return given.pop(0)

    undo.append((builtins, "input", builtins.input))
    builtins.input = ask
    if order is not None:
        import concurrent.futures as cf

        class Executor:
            """Runs what is submitted in a given order."""

            def __init__(self, *a, **k):
                self.jobs = []

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.go()

            def submit(self, fn, *a, **k):
                f = cf.Future()
                self.jobs.append((f, fn, a, k))
                return f

            def go(self):
                rank = [i for i in order if i < len(self.jobs)]
                for i in rank:
                    f, fn, a, k = self.jobs[i]
                    if not f.done():
                        try:
                            f.set_result(fn(*a, **k))
                        except Exception as e:
                            f.set_exception(e)

        made = []

        def make(*a, **k):
            made.append(Executor())
            return made[-1]

        def completed(fs, *a, **k):
            for e in made:
                e.go()
            fs = list(fs)
            mine = [j[0] for e in made for j in e.jobs]
            rank = [mine[i] for e in made for i in order if i < len(e.jobs)]
            return iter([f for f in rank if f in fs])

        for name, new in (("ThreadPoolExecutor", make), ("as_completed", completed)):
            undo.append((cf, name, getattr(cf, name)))
            setattr(cf, name, new)
    try:
        yield cli
    finally:
        for mod, name, old in reversed(undo):
            setattr(mod, name, old)


def request(tmp, products, **kw):
    d = {"site": SITE, "date": DATE, "products": products, "model": None, "instrument": None, "input": Path(tmp, "in"), "output": Path(tmp, "out"), "plot": False, "show": False, "dl": False, "force_download": False, "variables": None, "max_y": None, "options": None}
    return argparse.Namespace(**{**d, **kw})


def go(world, args, tmp, calls, **kw):
    scratch = Path(tmp, f"scratch{len(calls)}-{len(world.downloads)}")
    scratch.mkdir(exist_ok=True)
    with stage(calls, **kw) as cli:
        cli.run(args, str(scratch), world)


def outputs(tmp, made):
    """Files made: path below the day's folder -> content"""
    base = Path(tmp, "out", SITE, DATE)
    return {str(Path(p).relative_to(base)): Path(p).read_text() for p in made if os.path.isfile(p)}


def made_by(calls):
    return [c[1] for c in calls if c[0] not in ("figure", "l3figure", "bundle")]


# ---------------------------------------------------------------- explorers

CHAIN = ["radar", "lidar", "mwr", "categorize", "classification", "iwc", "mwr-l1c", "mwr-single", "epsilon-radar", "l3-cf", "l3-iwc"]
RAWS = {"radar": ("mira-35", "mira-35"), "lidar": ("chm15k", "chm15k"), "mwr": ("hatpro", "hatpro")}
PORTAL = {
    ("radar", "mira-35"): "P.radar", ("lidar", "chm15k"): "P.lidar", ("disdrometer", "parsivel"): "P.disdrometer", ("mwr-single", ""): "P.mwr-single", ("mwr", "hatpro"): "P.mwr",
    ("radar", "rpg-fmcw-94"): "P.rpg", ("model", "ecmwf"): "P.ecmwf", ("model", "gdas1"): "P.gdas1", ("categorize", ""): "P.categorize", ("iwc", ""): "P.iwc", ("mwr-l1c", "hatpro"): "P.mwr-l1c",
}


def world_of(case):
    raw = {}
    for p, (dev, kind) in RAWS.items():
        if f"raw {p}" not in case["missing"]:
            raw[(dev, kind)] = {f"{p}1.lwp": f"R.{p}1", f"{p}2.lwp": f"R.{p}2"} if p == "mwr" else {f"{p}1.dat": f"R.{p}1", f"{p}2.dat": f"R.{p}2"}
    portal = {k: v for k, v in PORTAL.items() if not any(m in ("all", v) for m in case["missing"])}
    if "all" in case["missing"]:
        raw = {}
    if ("radar", "mira-35") in portal and "rpg too" not in case["missing"]:
        portal.pop(("radar", "rpg-fmcw-94"), None)
    # real outputs and their twins on the portal have the same length and name
    return World(raw, portal, {pid("hatpro"): {"retrieval_coefficients": [{"links": ["x"]}]}})


def expected(world, products, model=None, dl=False):
    """What is to be made: file -> content (a set where more than one is right)"""
    port = {}
    for (p, _), v in world.portal.items():
        port.setdefault(p, v)
    kinds = {kind: files for (dev, kind), files in world.raw.items()}
    model_file = world.portal.get(("model", model)) if model else port.get("model")
    out, local = {}, {}
    conv = {"radar": "mira2nc", "lidar": "ceilo2nc", "mwr": "hatpro2nc", "mwr-l1c": "hatpro2l1c"}
    if dl:
        return {}
    for p in products:
        if p in conv:
            dev, kind = RAWS["mwr" if p.startswith("mwr") else p]
            if kind in kinds:
                texts = [v for v in kinds[kind].values()]
                local[p] = f"{conv[p]}({','.join(texts) if p != 'lidar' else ''.join(texts)})"
                out[p] = local[p]
    l1c = local.get("mwr-l1c", port.get("mwr-l1c"))
    if "mwr-single" in products and l1c:
        out["mwr-single"] = local["mwr-single"] = f"mwr-single({l1c})"
    if "categorize" in products and model_file:
        parts = {"radar": local.get("radar", port.get("radar")), "lidar": local.get("lidar", port.get("lidar")), "model": model_file}
        parts["mwr"] = local.get("mwr-single") or local.get("mwr") or port.get("mwr-single") or port.get("mwr") or next((v for (p, s), v in world.portal.items() if p == "radar" and s.startswith("rpg-fmcw")), None)
        parts["disdrometer"] = port.get("disdrometer")
        out["categorize"] = local["categorize"] = "categorize(" + ";".join(f"{k}={v}" for k, v in parts.items() if v) + ")"
    cat = local.get("categorize", port.get("categorize"))
    for p in ("classification", "iwc"):
        if p in products and cat:
            out[p] = local[p] = f"{p}({cat})"
    if "epsilon-radar" in products and model_file and (r := local.get("radar", port.get("radar"))):
        out["epsilon-radar"] = f"epsilon-radar({r},{model_file})"
    l3_model = world.portal.get(("model", model or "ecmwf"))
    for p in ("l3-cf", "l3-iwc"):
        src = local.get(L3[p], port.get(L3[p]))
        if p in products and src and l3_model:
            out[p] = f"{p}({model or 'ecmwf'}:{l3_model},{src})"
    return out


def place(p, model=None):
    if p in RAW:
        kind = RAWS["mwr" if p.startswith("mwr") else p][1]
        return f"instrument/{DAY}_{SITE}_{kind}_{short(pid(RAWS['mwr' if p.startswith('mwr') else p][0]))}.nc"
    if p in L3:
        return f"evaluation/{DAY}_{SITE}_{model or 'ecmwf'}_{p}.nc"
    return f"geophysical/{DAY}_{SITE}_{p}.nc"


def compare(tmp, calls, world, products, label, model=None, dl=False):
    want = expected(world, products, model, dl)
    names = {c[0]: c[1] for c in calls if c[0] not in ("figure", "l3figure", "bundle")}
    got = {}
    for name, path in names.items():
        p = {"mira2nc": "radar", "ceilo2nc": "lidar", "hatpro2nc": "mwr", "hatpro2l1c": "mwr-l1c"}.get(name, name)
        got[p] = path
    check(set(got) == set(want), f"{label}: makes {sorted(got)} instead of {sorted(want)}")
    check(len(set(got.values())) == len(got), f"{label}: one file for several products: {got}")
    for p, path in got.items():
        if p in ("mwr-single", "mwr-l1c"):
            check(Path(path).parent == Path(tmp, "out", SITE, DATE, "geophysical" if p == "mwr-single" else "instrument"), f"{label}: {p} is written to {path}")
        else:
            check(path == str(Path(tmp, "out", SITE, DATE, place(p, model))), f"{label}: {p} is written to {path}")
        check(os.path.isfile(path), f"{label}: {p} made by this run is gone")
        text = Path(path).read_text()
        check(text == want[p], f"{label}: {p} is {text} instead of {want[p]}")


class Answer:
    def __init__(self, url):
        self.content = url.encode()

    def raise_for_status(self):
        pass


def run_chain(case, tmp):
    import cloudnetpy.cli as cli

    states, steps = [], 0
    old = cli.requests.get
    cli.requests.get = lambda url, *a, **k: Answer(url)
    try:
        for k, products in enumerate(case["requests"]):
            here = os.path.join(tmp, str(k))
            os.makedirs(here)
            world = world_of(case)
            label = f"{products} without {case['missing']} {case['flags']}"
            flags = case["flags"]
            for again in range(1 + bool(case.get("again"))):
                calls = []
                go(world, request(here, list(products), **flags), here, calls)
                compare(here, calls, world, products, label + " again" * again, flags.get("model"), flags.get("dl", False))
                steps += len(calls)
            if flags.get("dl"):
                for p in ("radar", "lidar", "mwr"):
                    want = p in products or (p == "mwr" and "mwr-l1c" in products)
                    kind = RAWS[p][1]
                    there = Path(here, "in", SITE, DATE, f"{kind}_{short(pid(kind))}")
                    check(there.is_dir() == (want and (kind, kind) in world.raw), f"{label}: raw files of {p}")
            states.append(label)
    finally:
        cli.requests.get = old
    return Out(states=states, transitions=steps, traces=len(states))


DEVICES = {"A": ("mira-35/A", "mira-35"), "B": ("mira-35/B", "mira-35"), "C": ("rpg-fmcw-94/C", "rpg-fmcw-94")}


def value(v):
    return pid(DEVICES[v][0]) if v in DEVICES else pid("nobody") if v == "pid" else v


def matches(v, d):
    return v == d if v in DEVICES else DEVICES[d][1] == v


def run_select(case, tmp):
    """Which device is processed"""
    states = []
    n = 0
    for there in ("", "A", "C", "AB", "BA", "AC", "ABC"):
        for answer in ([], ["1"], ["2"], ["3"], ["0"], ["x"], ["-1"]):
            raw = {DEVICES[d]: {f"{d}.dat": f"R.{d}"} for d in there}
            world = World(raw, {})
            prefs = case["prefs"]
            args = None
            if prefs:
                args = ["radar:" + ",".join(value(v) for v in prefs)] if not case["split"] else [f"radar:{value(v)}" for v in prefs]
            product = "radar" + (f"[{case['bracket']}]" if case["bracket"] else "")
            here = os.path.join(tmp, str(n))
            n += 1
            os.makedirs(here)
            calls = []
            go(world, request(here, [product], instrument=args), here, calls, answers=answer)
            made = [(c[0], Path(c[1]).read_text()) for c in calls]
            can = sorted(d for d in there if not case["bracket"] or DEVICES[d][1] == case["bracket"])
            best = next(([d for d in can if matches(v, d)] for v in prefs if any(matches(v, d) for d in can)), None)
            if best:
                allowed = [best[0]]  # of equal devices, the first by name
            else:
                if len(can) > 1:
                    k = int(answer[0]) - 1 if answer and answer[0] not in ("x",) else -1
                    pick = can[k] if 0 <= k < len(can) else None
                else:
                    pick = can[0] if can else None
                allowed = [pick]
                if prefs:
                    allowed.append(None)  # preferences may also be strict
                    for kind in {DEVICES[d][1] for d in can}:  # or keep to listed instruments
                        sub = [d for d in can if DEVICES[d][1] == kind and kind in prefs]
                        allowed += sub
            want = [[] if d is None else [("mira2nc" if DEVICES[d][1] == "mira-35" else "rpg2nc", ("mira2nc" if DEVICES[d][1] == "mira-35" else "rpg2nc") + f"(R.{d})")] for d in allowed]
            label = f"{product} prefer {prefs} of {there or 'none'} answer {answer}"
            check(made in want, f"{label}: {made} instead of {want}")
            states.append(label)
    return Out(states=states, transitions=len(states), traces=len(states))


def run_inputs(case, tmp):
    """Which files categorize uses, in every order of downloads"""
    states = []
    radar = {"A": ("radar", "mira-35/A"), "C": ("radar", "rpg-fmcw-94/C")}
    n = 0
    for have, lidar, prefs in itertools.product(("", "A", "C", "AC", "CA"), ("", "l", "h", "lh", "H", "lH"), ([], ["A"], ["C"], ["mira-35", "C"], ["rpg-fmcw-94"], ["pid", "A"])):
        if hash_of(have, lidar, *prefs) % case["of"] != case["part"]:
            continue
        portal = {radar[d]: f"P.{d}" for d in have}
        if "l" in lidar:
            portal[("lidar", "chm15k/L")] = "P.chm"
        if "h" in lidar:
            portal[("doppler-lidar", "halo-doppler-lidar/H")] = "P.halo"
        if "H" in lidar:
            portal[("lidar", "halo-doppler-lidar/H")] = "P.halo"
        portal |= {("model", "ecmwf"): "P.model", ("disdrometer", "parsivel/D"): "P.parsivel"}
        for lp in ([], ["halo-doppler-lidar"], ["halo-doppler-lidar", "chm15k"], ["nothing", "halo-doppler-lidar"]):
            inst = ([f"radar:{','.join(value(v) for v in prefs)}"] if prefs else []) + ([f"lidar:{','.join(lp)}"] if lp else [])
            want_radar = next((f"P.{d}" for v in prefs for d in have if matches(v, d)), f"P.{have[0]}" if have else None)
            avail = {"chm15k": "P.chm" if "l" in lidar else None, "halo-doppler-lidar": "P.halo" if "h" in lidar.lower() else None}
            want_lidar = next((avail[v] for v in lp if avail.get(v)), avail["chm15k"] or (avail["halo-doppler-lidar"] if "H" in lidar else None))
            mwr = "P.C" if "C" in have else None
            parts = {"radar": want_radar, "lidar": want_lidar, "model": "P.model", "mwr": mwr, "disdrometer": "P.parsivel"}
            want = "categorize(" + ";".join(f"{k}={v}" for k, v in parts.items() if v) + ")"
            for order in itertools.permutations(range(4)) if case["orders"] else [None, (0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)]:
                here = os.path.join(tmp, str(n))
                n += 1
                os.makedirs(here)
                calls = []
                go(World({}, portal), request(here, ["categorize"], instrument=inst or None, options={"x": n}), here, calls, order=order)
                label = f"radars {have}, lidars {lidar}, prefer {prefs} {lp}, order {order}"
                check([c[0] for c in calls] == ["categorize"] and calls[0][2] == {"x": n}, f"{label}: {calls}")
                got = Path(calls[0][1]).read_text()
                check(got == want, f"{label}: {got} instead of {want}")
                states.append(label)
    return Out(states=states, transitions=len(states), traces=len(states))


def hash_of(*x):
    return sum((i + 1) * sum(map(ord, s)) for i, s in enumerate(x)) + len(x)


def texts_of(path):
    with open(path) as f:
        return f.read()


def run_converters(case, tmp):
    """Every instrument has its converter, files and metadata."""
    from cloudnetpy import cli

    product, kind = case["product"], case["kind"]
    states, n = [], 0
    dev = f"{kind}/X"
    cals = {"": None, "none": {}, "some": {"range_correction_factor": 1.25, "snr_limit": 7, "calibration_factor": 1.2345, "retrieval_coefficients": [{"links": ["http://h/a.nc", "http://h/b.nc"]}], "other": 3}, "zero": {"snr_limit": 0}}
    sets = {
        "one": ["a.dat"], "two": ["a.dat", "b.dat"], "gz": ["a.dat.gz", "b.dat.gz"], "mixed": ["a.dat.gz", "b.dat"], "lv0": ["a.LV0", "b.lv1", "c.lv0"], "lwp": ["a.LWP", "b.brt", "c.iwv.gz", "d.nc", "e.hkd"], "only": ["a.lv0"],
    }
    old = cli.requests.get
    cli.requests.get = lambda url, *a, **k: Answer(url)
    try:
        for (cname, cal), (sname, names) in itertools.product(cals.items(), sets.items()):
            files = {f: f"R.{f.removesuffix('.gz')}" for f in names}
            packed = {f: gzip.compress(t.encode()) if f.endswith(".gz") else t for f, t in files.items()}
            use = {
                "radar": [f for f in names if not f.lower().endswith(".lv0")], "mwr": [f for f in names if ".lwp" in f.lower() or ".iwv" in f.lower()], "mwr-l1c": [f for f in names if not f.lower().endswith(".nc")],
            }.get(product, names)
            other = (f"{kind}/Y", kind)
            world = World({(dev, kind): packed, other: {"z.dat": "R.z", "z.lwp": "R.z"}}, {}, {pid(dev): cal} if cal is not None else {})
            here = os.path.join(tmp, str(n))
            n += 1
            os.makedirs(here)
            calls = []
            label = f"{product} of {kind}, {sname}, calibration {cname}"
            args = request(here, [product], instrument=[f"{product}:{pid(dev)}"])
            try:
                go(world, args, here, calls)
            except ValueError:
                check((kind == "basta" and len(use) > 1) or (product == "mwr-l1c" and not (cal or {}).get("retrieval_coefficients")), f"{label} is refused")
                states.append(label)
                continue
            check(not (kind == "basta" and len(use) > 1), f"{label}: several files")
            check(not calls or product != "mwr-l1c" or (cal or {}).get("retrieval_coefficients"), f"{label}: no coefficients {calls}")
            calls = [c for c in calls if c[0] != "bundle"]
            if not use:
                check(not calls, f"{label}: {calls} made of nothing")
                continue
            (call,) = calls
            name = {"mwr": "hatpro2nc", "mwr-l1c": "hatpro2l1c"}.get(product, CONVERTER.get(kind))
            check(call[0] == name, f"{label}: converted with {call[0]}")
            texts = [files[f] for f in use]
            sep = "" if kind in ("chm15k", "thies-lnm") and len(use) > 1 else ","
            got = Path(call[1]).read_text()
            check(got == f"{name}({sep.join(texts)})", f"{label}: {got} instead of {name}({sep.join(texts)})")
            check(product == "mwr-l1c" or call[1] == str(Path(here, "out", SITE, DATE, "instrument", f"{DAY}_{SITE}_{kind}_{short(pid(dev))}.nc")), f"{label}: written to {call[1]}")
            meta = call[2]
            check(all(meta.get(k) == v for k, v in (("name", "Granada"), ("latitude", 37.2), ("longitude", -3.6), ("altitude", 680))), f"{label}: site {meta}")
            cal = cal or {}
            if name == "mira2nc":
                check(meta.get("range_correction_factor") == cal.get("range_correction_factor"), f"{label}: {meta}")
            if name == "pollyxt2nc":
                check(meta["snr_limit"] == cal.get("snr_limit", 25), f"{label}: {meta}")
            if name == "ceilo2nc":
                check(meta["model"] == kind, f"{label}: {meta}")
                if kind != "cl61d":
                    check(meta.get("calibration_factor") == cal.get("calibration_factor"), f"{label}: {meta}")
            if name == "hatpro2l1c":
                links = ["http://h/a.nc", "http://h/b.nc"]
                check(list(meta["coefficientLinks"]) == links and meta.get("other") == cal.get("other"), f"{label}: {meta}")
                check([texts_of(f) for f in meta["coefficientFiles"]] == links, f"{label}: coefficients {meta['coefficientFiles']}")
            states.append(label)
    finally:
        cli.requests.get = old
    return Out(states=states, transitions=len(states), traces=len(states))


def run_again(case, tmp):
    """The portal changes between the runs of a history."""
    states = []
    steps = list(itertools.product(("same", "raw", "product", "both"), (False, True)))
    for n, history in enumerate(itertools.product(steps, repeat=case["length"])):
        here = os.path.join(tmp, str(n))
        os.makedirs(here)
        version = {"raw": 0, "product": 0}
        stored = None
        for k, (change, force) in enumerate([("same", False), *history]):
            for x in version:
                version[x] += change in (x, "both")
            raw = {f: f"R.{f}.{version['raw']}" for f in ("a.dat.gz", "b.dat")}
            packed = {f: gzip.compress(t.encode(), mtime=0) if f.endswith("gz") else t for f, t in raw.items()}
            made = f"P.categorize.{version['product']}"
            calls = []
            go(World({("mira-35", "mira-35"): packed}, {("categorize", ""): made}, checksum=True), request(here, ["radar", "iwc"], force_download=force), here, calls)
            stored = made if force or stored is None else stored
            got = [(c[0], Path(c[1]).read_text()) for c in calls]
            label = f"history {[('start', False), *history][: k + 1]}"
            radar = f"mira2nc({raw['a.dat.gz']},{raw['b.dat']})"
            check(got[:1] == [("mira2nc", radar)] and len(got) == 2, f"{label}: {got} instead of {radar}")
            # a product that is already there may be kept
            check(got[1][1] in {f"iwc({stored})", f"iwc({made})"}, f"{label}: {got[1][1]} of {stored}")
            if got[1][1] == f"iwc({made})":
                stored = made
            states.append(label)
    return Out(states=states, transitions=len(states), traces=n + 1)


def run_places(case, tmp):
    """Everything is written below the given folders, whatever their names, figures beside the files."""
    from cloudnetpy import cli

    states, n = [], 0
    for folder, plot, variables, products in itertools.product(
        ("out", "categorize", "my.nc.d", "l2-categorize.nc/x", "classification"), (False, True), (None, "a,b", "fails"), (["classification", "iwc"], ["categorize", "classification"], ["radar"], ["l3-cf"], ["epsilon-radar", "drizzle"])
    ):
        here = os.path.join(tmp, str(n))
        n += 1
        os.makedirs(here)
        world = world_of({"missing": []})
        calls = []

        class Listing:
            def raise_for_status(self):
                pass

            def json(self):
                return [{"id": p, "variables": [{"id": f"{p}-v1"}, {"id": f"{p}-v2"}]} for p in (*RAW, *DERIVED)]

        old = cli.requests.get
        cli.requests.get = lambda *a, **k: Listing()
        try:
            go(world, request(here, products, output=Path(here, folder), plot=plot, variables=variables, max_y=5), here, calls)
        finally:
            cli.requests.get = old
        base = Path(here, folder, SITE, DATE)
        label = f"{products} in {folder}, figures {plot} of {variables}"
        made = {c[1] for c in calls if c[0] not in ("figure", "l3figure")}
        where = {"radar": place("radar"), **{p: place(p) for p in DERIVED}}
        check(made == {str(base / where[p]) for p in products}, f"{label}: written {sorted(made)}")
        figures = [c for c in calls if c[0] in ("figure", "l3figure")]
        check(sorted(c[1] for c in figures) == (sorted(made) if plot else []), f"{label}: figures of {[c[1] for c in figures]}")
        for c in figures:
            if c[0] == "figure":
                check(c[3] == str(Path(c[1]).with_suffix(".png")), f"{label}: figure of {c[1]} is saved to {c[3]}")
                check(c[2] == (variables.split(",") if variables else ["v1", "v2"]), f"{label}: figure of {c[2]}")
            else:
                check(Path(c[3]) == Path(c[1]).parent, f"{label}: figure saved to {c[3]}")
        check(set(os.listdir(here)) <= {folder.split("/")[0], "in", *[x for x in os.listdir(here) if x.startswith("scratch")]}, f"{label}: {os.listdir(here)}")
        states.append(label)
    return Out(states=states, transitions=len(states), traces=len(states))


def run_parse(case, tmp):
    from cloudnetpy import cli

    values = ["radar:mira-35", "radar:" + pid("A"), "lidar:cl61d, chm15k", "radar:a,b,,c", "radar:", "radar:x,lidar:y", "nothing", "lidar:" + pid("A") + ",cl61d"]
    want = {0: ("radar", ["mira-35"]), 1: ("radar", [pid("A")]), 2: ("lidar", ["cl61d", "chm15k"]), 3: ("radar", ["a", "b", "c"]), 4: ("radar", []), 5: None, 6: None, 7: ("lidar", [pid("A"), "cl61d"])}
    states = []
    for r in range(4 if hasattr(cli, "_parse_instrument_preferences") else 0):
        for idx in itertools.product(range(len(values)), repeat=r):
            exp = {}
            for i in idx:
                if want[i] is None:
                    exp = None
                    break
                exp.setdefault(want[i][0], []).extend(want[i][1])
            try:
                got = cli._parse_instrument_preferences([values[i] for i in idx] or None)
            except argparse.ArgumentTypeError:
                check(exp is None, f"{[values[i] for i in idx]} is refused")
                continue
            check(exp is not None and {k: v for k, v in got.items() if v} == {k: v for k, v in exp.items() if v}, f"{[values[i] for i in idx]}: {got} instead of {exp}")
            states.append(str(idx))
    def main(*argv):
        """The request that is run for a command line, None if refused"""
        got = []
        old = cli.run, cli.APIClient, sys.argv
        cli.run, cli.APIClient, sys.argv = (lambda args, *a: got.append(args)), (lambda *a, **k: World({}, {})), ["cloudnetpy", "-s", SITE, "-d", DATE, *argv]
        logger = logging.getLogger()
        handlers, level = logger.handlers, logger.level
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                cli.main()
        except SystemExit:
            return None
        finally:
            cli.run, cli.APIClient, sys.argv = old
            logger.handlers, logger.level = handlers, level
        return got[0]

    for r in range(1, 4):
        for names in itertools.product(["radar", "radar[mira-35]", "nope", "l3-cf", "iwc", ""], repeat=r):
            got = main("-p", ",".join(names))
            check(got is not None and got.products == [n for n in names if n not in ("nope", "")], f"{names}: {got and got.products}")
            states.append(str(names))
    for name, ok in ((None, True), ("ecmwf", True), ("gdas1", True), ("x", False)):
        for extra in itertools.product((False, True), repeat=4):
            argv = ["-p", "radar", *(["-m", name] if name else []), *[x for x, e in zip(("--plot", "--dl", "--force-download", "-ilidar:cl61d"), extra) if e]]
            got = main(*argv)
            check((got is None) == (not ok), f"{argv}: {got}")
            if got is not None:
                check((got.model, got.plot, got.dl, got.force_download, got.instrument) == (name, *extra[:3], ["lidar:cl61d"] if extra[3] else None), f"{argv}: {got}")
                check((got.site, got.date, Path(got.input), Path(got.output), got.show) == (SITE, DATE, Path("input"), Path("output"), False), f"{argv}: {got}")
            states.append(str(argv))
    return Out(states=states, transitions=len(states), traces=len(states))


def run(ctx):
    ctx.assume("converters, product generators, plotting and the data portal are replaced by stand-ins that record what they are given; the portal has one file per product and device; a request relies on no files of other runs")
    single = ["raw radar", "raw lidar", "raw mwr", *dict.fromkeys(PORTAL.values())]
    missing = [[], ["all"], ["rpg too"], *[[m] for m in single], ["P.mwr-single", "P.mwr"], ["P.mwr-single", "P.mwr", "P.radar"], ["raw radar", "P.radar"], ["raw mwr", "P.mwr-l1c"], ["P.ecmwf", "P.gdas1"], ["raw radar", "raw lidar", "raw mwr"]]
    flags = [{}, {"force_download": True}, {"dl": True}, {"model": "gdas1"}]
    sizes = range(1, len(CHAIN) + 1) if ctx.thorough else (1, 2, 3, 10)
    requests = [list(p) for r in sizes for p in itertools.combinations(CHAIN, r)]
    if not ctx.thorough:
        requests += [[*p, "categorize"] for p in itertools.combinations([x for x in CHAIN if x != "categorize"], 3)]
        requests += [list(reversed(p)) for p in itertools.combinations(CHAIN, 2)]
    cases = [{"requests": requests[k : k + 60], "missing": m, "flags": f, "again": i % 3 == 0} for i, m in enumerate(missing) for f in flags for k in range(0, len(requests), 60)]
    ctx.explore("chain", run_chain, cases, chunk=4, bound="requests of up to 4 (all) of 11 products x 23 states of the portal x flags, some run twice")
    tokens = ["mira-35", "rpg-fmcw-94", "basta", "A", "B", "C", "pid"]
    prefs = [list(p) for r in range(4 if ctx.thorough else 3) for p in itertools.permutations(tokens, r)]
    ctx.explore("select", run_select, [{"prefs": p, "bracket": b, "split": s} for p in prefs for b in (None, "mira-35", "rpg-fmcw-94") for s in (False, True) if len(p) > 1 or not s], chunk=2, bound="lists of up to 2 (3) of 7 preferences x product with or without instrument x 7 sets of devices x 7 answers")
    ctx.explore("inputs", run_inputs, [{"part": k, "of": 24, "orders": ctx.thorough} for k in range(24)], chunk=1, bound="5 sets of radars x 6 of lidars x 6 x 4 preferences, downloads completing in 4 (all 24) orders")
    ctx.explore("converters", run_converters, [{"product": p, "kind": k} for p, ks in RAW.items() for k in ks], chunk=1, bound="every instrument x 7 sets of raw files x 4 calibrations")
    ctx.explore("again", run_again, [{"length": k} for k in range(1, 5 if ctx.thorough else 4)], chunk=1, bound="histories of up to 3 (4) changes of the portal followed by a run, forced or not")
    ctx.explore("places", run_places, [{}], chunk=1, bound="5 output folders x 5 requests x figures")
    ctx.explore("parse", run_parse, [{}], chunk=1, bound="up to 3 preferences of 8, up to 3 products of 6")
