"""Write the table of planted changes into docs/tail.md."""
import json
from pathlib import Path

root = Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["what_it_breaks"], m["needs"]))
text = (root / "docs/tail.md").read_text()
head = text.split("## Planted changes")[0]
out = head + """## Planted changes

Each is in `seeded/<name>` and was confirmed with `tools/seed.py` (builds, the stable tests pass, the demonstration fails with it and passes
without). All are caught by the quick check of their property. Those marked * were missed at first, and led to new entries or
stronger assertions: lists of prizes and required shipments, several load dimensions with fractional penalties, stale caches, pickups in later
trips, swaps with unassigned nodes, perturbed shipments with visits next to them, unused reload depots, whole-number penalties, releases after the latest start.

| property | change | what it breaks | needs |
|---|---|---|---|
"""
missed = {"perturb-delivery", "reload-reference", "end-early", "load-rounding", "pickup-first", "swap-trip"}
for p, n, w, needs in sorted(rows):
    out += f"| {p} | {n}{'*' if n in missed else ''} | {w} | {needs} |\n"
(root / "docs/tail.md").write_text(out)
