"""Rewrite the table of planted bugs in DESIGN.md (between the two marks) from seeded/*/meta.json."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| bug | caught by | what it breaks | what it needs |", "|---|---|---|---|"]
for meta in sorted(root.glob("seeded/*/meta.json")):
    m = json.loads(meta.read_text())
    rows.append("| `%s` | %s | %s | %s |" % (meta.parent.name, m["property"], m["what_it_breaks"], m["needs"]))
design = root / "DESIGN.md"
text = design.read_text()
start, end = "<!-- seeds -->", "<!-- /seeds -->"
head, rest = text.split(start)
tail = rest.split(end)[1]
design.write_text(head + start + "\n" + "\n".join(rows) + "\n" + end + tail)
