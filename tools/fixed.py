"""python3 tools/fixed.py C04: records every fix commit not yet listed under the given property."""

import json
import subprocess
import sys
from pathlib import Path

P = Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(P.read_text())
have = " ".join(d["fixed"])
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, msg = line.split(" ", 1)
    if msg.startswith("fix:") and h not in have:
        # upstream history also has fix commits: only those after our first one
        anc = subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", "ae20fa2", h]).returncode
        if anc == 0:
            d["fixed"].append(f"fixed: property={sys.argv[1]} {h} what failed until this commit: {msg[5:]}")
            print(d["fixed"][-1])
P.write_text(json.dumps(d, indent=1, ensure_ascii=False) + "\n")
