"""python3 tools/design.py: rewrites the list of repaired defects in DESIGN.md from known_findings.json."""

import json
import re
from pathlib import Path

R = Path(__file__).resolve().parent.parent
d = json.loads((R / "known_findings.json").read_text())
s = (R / "DESIGN.md").read_text()
a = s.index("## Defects found and repaired")
b = s.index("\n## ", a + 5)
lines = []
for f in d["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    lines.append(f"- {m[1]} `{m[2]}` {m[3].removeprefix('what failed until this commit: ')}")
text = """## Defects found and repaired

All were found by the checks on the original tree, reproduced on the real code, repaired by a `fix:` commit, and stay
covered. The list is `fixed` in `known_findings.json`.

""" + "\n".join(lines) + "\n\n## Defects recorded, not repaired\n\n" + "\n".join(f"- {f['property']} `{f['key']}`: {f['what']}" for f in d["findings"]) + "\n"
rest = s[b:]
if rest.startswith("\n## Defects recorded, not repaired"):
    rest = rest[rest.index("\n## ", 5):]
(R / "DESIGN.md").write_text(s[:a] + text + rest)
