#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from edits: mkseed(id, prop, [(file, old, new)], needs, breaks, demo source)."""
import json
import shutil
import subprocess
from pathlib import Path

V = Path(__file__).resolve().parent.parent
REPO = Path("/repo")


def mkseed(id, prop, edits, needs, breaks, demo, helpers=("common.py", "ops.py", "lsdemo.py")):
    d = V / "seeded" / id
    d.mkdir(parents=True, exist_ok=True)
    out = ""
    files = {}
    for f, old, new in edits:
        s = files.get(f) or (REPO / f).read_text()
        assert s.count(old) == 1, (id, f, s.count(old))
        files[f] = s.replace(old, new)
    scratch = Path("/tmp/mkseed")
    shutil.rmtree(scratch, ignore_errors=True)
    for f, s in files.items():
        for side, text in (("a", (REPO / f).read_text()), ("b", s)):
            p = scratch / side / f
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(text)
    out = subprocess.run(["diff", "-ru", "a", "b"], cwd=scratch, capture_output=True, text=True).stdout
    out = "".join(l for l in out.splitlines(True) if not l.startswith("diff -ru"))
    shutil.rmtree(scratch)
    (d / "patch.diff").write_text(out)
    subprocess.run(["git", "-C", str(REPO), "apply", "--check", str(d / "patch.diff")], check=True)
    (d / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / "demo.py").write_text(demo.strip() + "\n")
    for h in helpers:
        if f"import {h[:-3]}" in demo or f"from {h[:-3]}" in demo or (h == "common.py" and "ops" in demo):
            shutil.copy(V / "tools" / "demo" / h, d / h)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    print("wrote", id)
