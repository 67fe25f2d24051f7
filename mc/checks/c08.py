"""C08: daily accumulations follow the instrument's counter through resets and gaps."""

from __future__ import annotations

import datetime
import itertools
import os

from .. import ncio
from ..core import Out, check, digest
from . import c03

LEVEL = "model_checking"
DAY = c03.DAY


def run_counter(case, tmp) -> Out:
    """case: kind, values of the counter in mm (None = missing), order of the rows in the file"""
    from cloudnetpy.instruments import fd12p2nc, rain_e_h32nc, ws2nc

    kind, vals = case["kind"], case["values"]
    t0 = datetime.datetime.combine(DAY, datetime.time())
    rows = []
    for i, v in enumerate(vals):
        r = c03.record("A", i, DAY, ra=v, rr=0.1)
        r["t"] = t0 + datetime.timedelta(minutes=10 * i)
        rows.append(r)
    rows = [rows[i] for i in case.get("order", range(len(rows)))]
    path, out = os.path.join(tmp, "in.txt"), os.path.join(tmp, "out.nc")
    meta = {"name": "Palaiseau", **c03.SITE}
    if kind == "ws":
        with open(path, "wb") as f:
            f.write(c03.w_sirta("Palaiseau", rows))
        ws2nc(path, out, meta, date=DAY)
        names = ["rainfall_amount"]
    elif kind == "raine":
        with open(path, "w") as f:
            for r in rows:
                t = r["t"]
                f.write(f"{t:%d.%m.%Y;%H:%M:%S};0.1;{r['ra']:.3f};0;9.5;11.5;0;0;0;60;2582;r;L;MF;A\n")
        rain_e_h32nc(path, out, meta, date=DAY)
        names = ["rainfall_amount"]
    else:
        with open(path, "w") as f:
            for r in rows:
                a = c03.num(r["ra"], "%.2f", "////")
                s = c03.num(r["ra"], "%d", "////")
                f.write(
                    f"{r['t']:%d.%m.%Y   %H:%M:%S}   FD   100   900   929   L   5   5   4   0.1   {a}   {s}\n"
                )
        fd12p2nc(path, out, meta, date=DAY)
        names = ["precipitation_amount", "snowfall_amount"]
    want = [None if v is None else v / 1000 for v in c03.total(vals)]
    got = ncio.read(out)["vars"]
    for n in names:
        g = got[n]["data"]
        check(
            len(g) == len(want)
            and all(
                (a is None) == (b is None) and (a is None or abs(a - b) < 1e-6)
                for a, b in zip(g, want)
            ),
            lambda: f"{n} = {g} for counter {vals}, expected {want}",
        )
    return Out(states=[digest(want)], transitions=len(vals))


def cases(depth):
    small = [0, 2, 3, None]
    for n in range(1, depth + 1):
        for vals in itertools.product(small, repeat=n):
            yield {"kind": "fd", "values": list(vals)}
            yield {"kind": "ws", "values": list(vals)}
            if None not in vals:
                yield {"kind": "raine", "values": list(vals)}
    # large readings: a reset may be a small drop, growth may be a hundredth
    for n in range(2, depth):
        for vals in itertools.product([20, 19, 400, None], repeat=n):
            for kind in ("fd", "ws"):
                yield {"kind": kind, "values": list(vals)}
            if None not in vals:
                yield {"kind": "raine", "values": list(vals)}
    for vals in itertools.product([0, 1, 5], repeat=3):
        for order in itertools.permutations(range(3)):
            for kind in ("fd", "ws", "raine"):
                yield {"kind": kind, "values": list(vals), "order": list(order)}


def run(ctx) -> None:
    d = 7 if ctx.thorough else 5
    ctx.explore(
        "counter",
        run_counter,
        list(cases(d)),
        bound=f"all counter histories of <= {d} readings over {{0, 2, 3, missing}} and of < {d} over {{19, 20, 400, missing}} for 3 instruments, "
        "every file order of 3 readings",
    )
    ctx.assume("a drop of the counter is a reset to zero followed by the new reading")
