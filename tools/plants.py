"""Writes the list of planted bugs into DESIGN.md (between the marks)."""
import collections, json, pathlib, re

ROOT = pathlib.Path(__file__).resolve().parent.parent
by = collections.defaultdict(list)
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    by[m["property"]].append((d.name, m["what_it_breaks"].strip().rstrip(".")))
first = set((ROOT / "tools" / "missed_first.txt").read_text().split())
lines = []
for p in sorted(by):
    lines.append(f"- {p}: " + "; ".join(f"`{n}`{'*' if n in first else ''} {w}" for n, w in by[p]))
f = ROOT / "DESIGN.md"
s = f.read_text()
new = "<!-- plants -->\n" + "\n".join(lines) + "\n<!-- /plants -->"
s = re.sub(r"<!-- plants -->.*<!-- /plants -->", lambda _: new, s, flags=re.S)
f.write_text(s)
