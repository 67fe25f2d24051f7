"""Exhaustive bounded exploration of the real cloudnetpy code.

A check is a set of *explorers*.  An explorer is a finite, completely
enumerated list of cases (traces over a small alphabet) and a function that
drives the real code along one case and compares everything observable with a
reference model written in plain Python.  Nothing is sampled.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable, Iterable

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CASE_TIMEOUT = 120
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))  # only for judging mutants


class Violation(Exception):
    """The property is broken on this case."""

    def __init__(self, msg: str, key: str | None = None) -> None:
        super().__init__(msg)
        self.key = key


class CaseTimeout(Exception):
    pass


class FirstViolation(Exception):
    pass


def check(cond: Any, msg: str | Callable[[], str], key: str | None = None) -> None:
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def digest(obj: Any) -> str:
    return hashlib.blake2b(repr(obj).encode(), digest_size=10).hexdigest()


@dataclass
class Out:
    """What one case covered."""

    states: list = field(default_factory=list)  # canonical states visited
    transitions: int = 1  # model steps compared with the code
    traces: int = 1  # complete traces replayed on the code
    findings: list = field(default_factory=list)  # (key, message)
    note: Any = None


def _alarm(_s, _f):
    raise CaseTimeout


def scratch_root() -> str:
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


_W: dict = {}


def _init_worker(root: str) -> None:
    _W["tmp"] = tempfile.mkdtemp(dir=root)
    tempfile.tempdir = _W["tmp"]
    os.chdir(_W["tmp"])
    quiet()
    signal.signal(signal.SIGALRM, _alarm)


def quiet() -> None:
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def run_one(fn: Callable, case: Any, tmp: str) -> tuple[Out | None, str | None, str | None]:
    """Returns (out, violation message, finding key)."""
    d = tempfile.mkdtemp(dir=tmp)
    try:
        signal.alarm(CASE_TIMEOUT)
        out = fn(case, d)
        signal.alarm(0)
        if out is None:
            out = Out(states=[digest(case)])
        return out, None, None
    except Violation as e:
        return None, str(e), e.key
    except CaseTimeout:
        return None, f"did not terminate within {CASE_TIMEOUT} s", "timeout"
    except Exception as e:  # the code under test failed where it must not
        tb = traceback.format_exc(limit=-6)
        return None, f"unexpected {type(e).__name__}: {e}\n{tb}", f"exc:{type(e).__name__}"
    finally:
        signal.alarm(0)
        shutil.rmtree(d, ignore_errors=True)


def _work(args: tuple) -> list:
    modname, fnname, chunk = args
    fn = getattr(importlib.import_module(modname), fnname)
    res = []
    for idx, case in chunk:
        out, msg, key = run_one(fn, case, _W["tmp"])
        if out is not None:
            res.append(
                (
                    idx,
                    [s if isinstance(s, str) else digest(s) for s in out.states],
                    out.transitions,
                    out.traces,
                    out.findings,
                    out.note,
                    None,
                    None,
                )
            )
        else:
            res.append((idx, [], 0, 0, [], None, msg, key))
    return res


class Ctx:
    def __init__(self, pid: str, tier: str, seed: int, level: str) -> None:
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.deadline = self.t0 + (
            float(os.environ.get("VERIF_BUDGET", "0"))
            or (720 if tier == "quick" else 3 * 3600)
        )
        self.states: set[str] = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.samples: list = []
        self.explorers: dict[str, dict] = {}
        self.assumptions: list[str] = []
        self.violations: list[dict] = []
        self.known: list[str] = []
        self.complete = True
        self.root = tempfile.mkdtemp(prefix="verif-", dir=scratch_root())
        self.findings = self._load_findings()
        self._pool = None

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def _load_findings(self) -> dict[str, str]:
        p = VERIF / "known_findings.json"
        if not p.exists():
            return {}
        data = json.loads(p.read_text())
        return {
            f["key"]: f["what"] for f in data.get("findings", []) if f["property"] == self.pid
        }

    def assume(self, text: str) -> None:
        self.assumptions.append(text)

    def pool(self):
        if self._pool is None:
            ctx = mp.get_context("fork")
            self._pool = ctx.Pool(JOBS, initializer=_init_worker, initargs=(self.root,))
        return self._pool

    def explore(
        self,
        name: str,
        fn: Callable,
        cases: Iterable,
        *,
        bound: str,
        chunk: int | None = None,
        max_violations: int = 5,
    ) -> None:
        """Runs `fn` on every case (simplest first) and accounts for it."""
        if name in self.explorers:
            raise RuntimeError(f"duplicate explorer {name}")
        cases = list(cases)
        n = len(cases)
        if n == 0:
            raise RuntimeError(f"explorer {name} has no cases")
        if chunk is None:
            chunk = max(1, min(64, n // (JOBS * 6) or 1))
        indexed = list(enumerate(cases))
        jobs = [
            (fn.__module__, fn.__name__, indexed[i : i + chunk]) for i in range(0, n, chunk)
        ]
        t0 = time.time()
        states: set[str] = set()
        trans = traces = done = 0
        bad = 0
        notes: list = []
        if JOBS == 1:
            if "tmp" not in _W:
                _init_worker(self.root)
            it = map(_work, jobs)
        else:
            it = self.pool().imap_unordered(_work, jobs)
        viol: list[tuple] = []
        while True:
            try:
                if JOBS == 1:
                    batch = next(it)
                else:
                    batch = it.next(timeout=max(1.0, self.deadline - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                self.complete = False
                break
            for idx, sts, tr, tc, finds, note, msg, key in batch:
                done += 1
                states.update(sts)
                trans += tr
                traces += tc
                for fk, fm in finds:
                    self._finding_or_violation(name, cases[idx], fk, fm, viol, idx)
                if note is not None:
                    notes.append(note)
                if msg is not None:
                    bad += 1
                    self._finding_or_violation(
                        name, cases[idx], key, msg, viol, idx, module=fn.__module__
                    )
            if viol and FAILFAST:
                self._report(name, fn.__module__, fn.__name__, cases[viol[0][0]], viol[0][1])
                raise FirstViolation
            if time.time() > self.deadline:
                self.complete = False
                break
        self.states |= {name + s for s in states}
        self.transitions += trans
        self.traces += traces
        self.cases += done
        self.explorers[name] = {
            "cases": done,
            "of": n,
            "distinct_states": len(states),
            "transitions": trans,
            "traces": traces,
            "bound": bound,
            "wall_s": round(time.time() - t0, 2),
        }
        if notes:
            self.explorers[name]["notes"] = sorted({json.dumps(x, default=str) for x in notes})[:12]
        for i in (0, n // 2, n - 1):
            if len(self.samples) < 40:
                self.samples.append({"explorer": name, "case": jsonable(cases[i])})
        viol.sort(key=lambda v: v[0])
        for idx, msg in viol[:max_violations]:
            self._report(name, fn.__module__, fn.__name__, cases[idx], msg)
        if viol[max_violations:]:
            print(f"  ... and {len(viol) - max_violations} more failing cases in {name}")
        print(
            f"[{self.pid}] {name}: cases={done}/{n} states={len(states)} "
            f"transitions={trans} traces={traces} violations={len(viol)} "
            f"({time.time() - t0:.1f}s) bound: {bound}",
            flush=True,
        )

    def _finding_or_violation(self, name, case, key, msg, viol, idx, module=None) -> None:
        full = f"{name}:{key}" if key else None
        if full and full in self.findings:
            line = f"KNOWN-FINDING: property={self.pid} {self.findings[full]}"
            if line not in self.known:
                self.known.append(line)
            return
        viol.append((idx, (f"[{full}] " if full else "") + msg))

    def _report(self, name, module, fnname, case, msg) -> None:
        d = VERIF / "out" / "replay"
        d.mkdir(parents=True, exist_ok=True)
        path = d / f"{self.pid}-{name}-{digest(case)[:8]}.json"
        path.write_text(
            json.dumps(
                {
                    "property": self.pid,
                    "explorer": name,
                    "module": module,
                    "function": fnname,
                    "case": jsonable(case),
                    "message": msg,
                    "replay": f"/verif/replay {path}",
                },
                indent=1,
            )
        )
        self.violations.append({"explorer": name, "case": jsonable(case), "message": msg})
        print(f"  case {json.dumps(jsonable(case))[:600]}")
        print("  " + msg[:2500].replace("\n", "\n  "))
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def close(self) -> None:
        if self._pool is not None:
            self._pool.terminate()
            self._pool.join()
            self._pool = None
        shutil.rmtree(self.root, ignore_errors=True)

    def write_evidence(self) -> None:
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        cov: dict[str, Any] = {
            "samples": self.samples,
            "explorers": self.explorers,
            "exhaustive": self.complete,
        }
        if self.level == "model_checking":
            cov |= {
                "states": len(self.states),
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
            }
        else:
            cov |= {
                "evaluations": self.cases,
                "distinct_nontrivial": len(self.states),
                "rule": self.rule,
            }
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        (d / f"{self.pid}.json").write_text(json.dumps(ev, indent=1))

    rule = "every case of the stated alphabet up to the stated bound, once each"


def jsonable(x: Any) -> Any:
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    return repr(x)


def untuple(x: Any) -> Any:
    return x


def main(pid: str, tier: str) -> int:
    sys.path.insert(0, str(REPO))
    quiet()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    ctx = Ctx(pid, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(ctx)
        for line in ctx.known:
            print(line)
        ctx.write_evidence()
    except FirstViolation:
        pass
    finally:
        ctx.close()
    print(
        f"[{pid}] tier={tier} states={len(ctx.states)} transitions={ctx.transitions} "
        f"traces={ctx.traces} cases={ctx.cases} exhaustive={ctx.complete} "
        f"violations={len(ctx.violations)} wall={time.time() - ctx.t0:.1f}s"
    )
    return 1 if ctx.violations else 0


def replay(path: str) -> int:
    sys.path.insert(0, str(REPO))
    quiet()
    data = json.loads(Path(path).read_text())
    fn = getattr(importlib.import_module(data["module"]), data["function"])
    root = tempfile.mkdtemp(prefix="verif-", dir=scratch_root())
    signal.signal(signal.SIGALRM, _alarm)
    try:
        out, msg, key = run_one(fn, data["case"], root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if msg is None:
        print("held on this case")
        return 0
    print(msg)
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1
