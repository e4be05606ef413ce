#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from specs.py."""
import json
from pathlib import Path

import specs

V = Path(__file__).resolve().parent
ids = sorted(specs.PROPS)
with open(V / "properties.jsonl", "w") as f:
    for i in ids:
        f.write(json.dumps(specs.PROPS[i]["text"]) + "\n")
    for i in sorted(specs.NOT_APPLICABLE):
        f.write(json.dumps(specs.NOT_APPLICABLE[i]["text"]) + "\n")

checks = []
for i in ids:
    s = specs.PROPS[i]
    kinds = {j["kind"] for j in s["jobs"]}
    how = []
    if "cpp" in kinds:
        how.append("symbolic execution of the LLVM bitcode of the C++ core")
    if "py" in kinds:
        how.append("symbolic execution of the Python source with z3-backed values")
    checks.append(dict(
        property=i,
        quick_cmd=f"python3 /verif/check.py {i} --tier quick",
        thorough_cmd=f"python3 /verif/check.py {i} --tier thorough",
        technique=" and ".join(how) + ", z3 deciding every branch and assertion, counterexamples replayed on the real code",
        level=s["level"],
        level_note="solver-decided for every value within the bounds: " + s["bounds"] + ". Outside: " + s["outside"] + ".",
    ))
m = dict(
    version=1,
    setup_cmd="python3 /verif/setup.py",
    checks=checks,
    not_applicable=[dict(property=i, reason=specs.NOT_APPLICABLE[i]["reason"]) for i in sorted(specs.NOT_APPLICABLE)],
    notes="See DESIGN.md. Genuine defects found are recorded in known_findings.json.",
)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")

D = V / "docs"
parts = [(D / "head.md").read_text().rstrip() + "\n"]
for i in ids:
    s = specs.PROPS[i]
    n = {t: [j for j in s["jobs"] if j.get("tier", "quick") == t] for t in ("quick", "thorough")}
    src = sorted({f"harness/{j['harness']}.cpp" if j["kind"] == "cpp" else f"pyharness/{j['module']}.py" for j in s["jobs"]})
    parts.append(f"### {i} {s['text']['title']}\n\n{s['text']['statement']}\n\n"
                 f"*Decided by* {s['explanation']} *Harness:* {', '.join(src)}: {len(n['quick'])} entries quick, "
                 f"{len(n['thorough'])} more thorough.\n\n"
                 f"*Bounds:* {s['bounds']}. *Outside:* {s['outside']}. *Assumes:* {'; '.join(s['assumptions']) or 'nothing'}.\n\n"
                 f"*Why tests cannot settle it:* {s['text']['why_tests_cant']}\n")
if specs.NOT_APPLICABLE:
    parts.append("## Not applicable\n\n" + "\n".join(
        f"* {i} {specs.NOT_APPLICABLE[i]['text']['title']}: {specs.NOT_APPLICABLE[i]['reason']}" for i in sorted(specs.NOT_APPLICABLE)) + "\n")
parts.append((D / "tail.md").read_text())
(V / "DESIGN.md").write_text("\n".join(parts))
