"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PROPS: list[dict] = []
NOTE = (
    "Exhaustive within the stated bounds: the real code is run on every case of the alphabet and "
    "everything observable is compared with an independent reference model. "
)


def prop(pid, title, statement, over, quant, why, files, mechanism, observe=(), state=(), tech="", note=""):
    PROPS.append(
        dict(
            id=pid,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": quant},
            why_tests_cant=why,
            anchors={
                "files": list(files),
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": list(observe),
                "hook_needed": None,
            },
            _tech=tech,
            _note=note,
        )
    )


exec((Path(__file__).parent / "props_data.py").read_text())

if __name__ == "__main__":
    PROPS.sort(key=lambda p: p["id"])
    assert len({p["id"] for p in PROPS}) == len(PROPS)
    lines, checks = [], []
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        lines.append(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}))
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} quick",
                "thorough_cmd": f"./check {p['id']} thorough",
                "technique": p["_tech"]
                or "model checking: exhaustive bounded enumeration of traces of the real code, "
                "each compared with a reference model",
                "level": p.get("_level", "model_checking"),
                "level_note": NOTE + p["_note"],
            }
        )
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./check --setup",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo. Every check imports cloudnetpy from /repo's working tree.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
    print(len(PROPS), "properties")
