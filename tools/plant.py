"""Makes and verifies planted bugs in scratch copies of /repo (never in /repo itself)."""

import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SEEDED = ROOT / "seeded"
DEMO_SH = """#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC
exec /opt/venv/bin/python "$here/demo.py"
"""


def mk(pid, prop, edits, needs, breaks, demo, helpers=()):
    d = SEEDED / pid
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True, exist_ok=True)
    diff = ""
    with tempfile.TemporaryDirectory() as t:
        for file in dict.fromkeys(e[0] for e in edits):
            src = Path(os.environ.get("VERIF_REPO", "/repo"), file).read_text()
            new = src
            for f, a, b in edits:
                if f == file:
                    assert new.count(a) == 1, (pid, file, new.count(a), a)
                    new = new.replace(a, b)
            for side, text in (("a", src), ("b", new)):
                p = Path(t, side, file)
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text(text)
            diff += subprocess.run(
                ["diff", "-u", f"a/{file}", f"b/{file}"], cwd=t, capture_output=True, text=True
            ).stdout
    (d / "patch.diff").write_text(diff)
    (d / "demo.sh").write_text(DEMO_SH)
    os.chmod(d / "demo.sh", 0o755)
    (d / "demo.py").write_text(demo.lstrip("\n"))
    for h in helpers:  # file writers the demonstration uses
        shutil.copy(ROOT / "mc" / f"{h}.py", d / f"{h}.py")
    (d / "meta.json").write_text(
        json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n"
    )


def tests(copy):
    xml = copy + ".xml"
    env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", TZ="UTC", LANG="C.UTF-8")
    subprocess.run(
        ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
         "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={xml}"],
        cwd=copy, env=env, capture_output=True,
    )
    bad = set()
    ok = set()
    for tc in ET.parse(xml).iter("testcase"):
        k = f"{tc.get('classname')}::{tc.get('name')}"
        (bad if any(c.tag in ("failure", "error") for c in tc) else ok).add(k)
    os.unlink(xml)
    return bad, ok


def original(d):
    """Lines that a patch removes and that are not lines of the original repository."""
    root = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
    file, old, bad, seen = None, 0, [], False
    for line in (d / "patch.diff").read_text().splitlines():
        if line.startswith("--- a/"):
            file = line[6:].split("\t")[0]
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "--root", file], capture_output=True, text=True).stdout.splitlines()
        elif line.startswith("+++ "):
            pass
        elif line.startswith("@@"):
            old = int(line.split()[1].split(",")[0][1:])
        elif line.startswith("-"):
            seen = True
            if not blame[old - 1].startswith(root):
                bad.append(line[1:].strip())
            old += 1
        elif line.startswith(" "):
            old += 1
    return bad if seen else ["only adds lines"]


def verify(pid, run_tests=True):
    d = SEEDED / pid
    meta = json.loads((d / "meta.json").read_text())
    copy = tempfile.mkdtemp(prefix=f"plant-{pid}-", dir="/tmp")
    res = {"id": pid, "property": meta["property"]}
    if late := original(d):
        res["not_original"] = late
    try:
        shutil.rmtree(copy)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        ap = subprocess.run(["git", "-C", copy, "apply", str(d / "patch.diff")], capture_output=True, text=True)
        if ap.returncode:
            return {**res, "error": "does not apply " + ap.stderr[:200]}
        with tempfile.TemporaryDirectory() as t:
            shutil.copytree(d, t, dirs_exist_ok=True)
            demo = str(Path(t) / "demo.sh")
            a = subprocess.run(["bash", demo], cwd="/repo", capture_output=True, text=True, timeout=300)
            b = subprocess.run(["bash", demo], cwd=copy, capture_output=True, text=True, timeout=300)
        res["demo"] = (a.returncode, b.returncode)
        if a.returncode:
            res["demo_out"] = (a.stdout + a.stderr)[-600:]
        elif b.returncode:
            res["demo_bug_out"] = (b.stdout + b.stderr)[-200:]
        if run_tests:
            bad, ok = tests(copy)
            base = base_fail()
            res["newly_failing"] = sorted(bad - base)[:5]
        env = dict(os.environ, VERIF_FAILFAST="1", VERIF_REPO=copy, VERIF_JOBS=os.environ.get("VERIF_JOBS", "8"))
        c = subprocess.run([str(ROOT / "check"), meta["property"], "quick"], env=env, capture_output=True, text=True)
        res["check"] = c.returncode
        res["line"] = next((x for x in c.stdout.splitlines() if x.startswith("VIOLATION")), None)
        if c.returncode not in (0, 1):
            res["check_out"] = (c.stdout + c.stderr)[-800:]
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    return res


BASE = Path("/tmp/base_fail.json")


def base_fail():
    if not BASE.exists():
        bad, _ = tests("/repo")
        Path("/repo.xml").unlink(missing_ok=True)
        BASE.write_text(json.dumps(sorted(bad)))
    return set(json.loads(BASE.read_text()))


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    ids = args or sorted(p.name for p in SEEDED.iterdir() if p.is_dir())
    rt = "--notests" not in sys.argv
    if rt:
        base_fail()
    with cf.ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "3"))) as ex:
        for r in ex.map(lambda i: verify(i, rt), ids):
            good = r.get("demo") and r["demo"][0] == 0 and r["demo"][1] != 0 and not r.get("newly_failing")
            print("OK " if good and r.get("check") == 1 else ("MISS" if good else "BAD "), json.dumps(r), flush=True)
