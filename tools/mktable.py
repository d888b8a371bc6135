"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib
H = pathlib.Path(__file__).resolve().parents[1]
NOTE = {"stale-started-trials": "missed first (C09 read single trials only; it reads listings now)"}
rows = []
for d in sorted((H / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["what_it_breaks"], NOTE.get(d.name, "")))
rows.sort()
p = H / "DESIGN.md"
s = p.read_text().split("\n### Table of planted bugs")[0].rstrip("\n")
s += "\n\n### Table of planted bugs\n\nEach is caught by the quick tier of the check of its property (VERIF_SEED=1).\n\n| check | bug | what it breaks | note |\n|---|---|---|---|\n"
s += "".join(f"| {a} | {b} | {c} | {n} |\n" for a, b, c, n in rows)
p.write_text(s)
