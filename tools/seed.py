#!/usr/bin/env python3
"""Confirms a planted change: seed.py ID... [--no-check] [--checks P01,P02].

Applies seeded/ID/patch.diff to /repo, builds, runs the stable tests, the demo
(must fail) and the property's quick check, undoes the change, rebuilds and runs
the demo again (must pass). Results are appended to build/seeds.jsonl.
"""
import argparse
import json
import subprocess
import tempfile
import time
from pathlib import Path

V = Path(__file__).resolve().parent.parent


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tests():
    with tempfile.TemporaryDirectory() as d:
        out = Path(d) / "o.json"
        sh(f"bash /opt/vp/test.sh {out}")
        if not out.exists():
            return None
        base = json.loads(Path("/opt/vp/BASELINE.json").read_text())
        res = json.loads(out.read_text())
        stable = base.get("stable") or base.get("passed") or base.get("pass") or base
        got = res.get("passed") or res.get("pass")
        return sorted(set(stable) - set(got))


def demo(d):
    with tempfile.TemporaryDirectory() as t:
        sh(f"cp -r {d}/. {t}/ && rm -f {t}/patch.diff {t}/meta.json")
        r = sh(f"timeout 300 bash {t}/demo.sh", cwd="/repo")
        return r.returncode, r.stdout[-400:]


ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="+")
ap.add_argument("--no-check", action="store_true")
ap.add_argument("--no-test", action="store_true")
ap.add_argument("--checks", default=None)
a = ap.parse_args()
for i in a.ids:
    d = V / "seeded" / i
    meta = json.loads((d / "meta.json").read_text())
    rec = {"id": i, "property": meta["property"]}
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        print(i, "does not apply", r.stdout)
        continue
    try:
        r = sh("bash /opt/vp/build.sh")
        rec["build"] = r.returncode
        if r.returncode:
            print(r.stdout[-1500:])
        if not a.no_test:
            rec["tests_lost"] = tests()
        rec["demo_patched"] = demo(d)
        if not a.no_check:
            rec["checks"] = {}
            for p in (a.checks or meta["property"]).split(","):
                t = time.time()
                c = sh(f"python3 {V}/check.py {p} --tier quick")
                rec["checks"][p] = [c.returncode, round(time.time() - t), [l[:300] for l in c.stdout.splitlines() if l.startswith(("violated", "VIOLATION", "note"))][:4]]
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    rec["demo_clean"] = demo(d)
    ok = rec["build"] == 0 and not rec.get("tests_lost") and rec["demo_patched"][0] != 0 and rec["demo_clean"][0] == 0
    rec["valid"] = ok
    with open(V / "build" / "seeds.jsonl", "a") as f:
        f.write(json.dumps(rec) + "\n")
    print(json.dumps(rec, indent=1))
