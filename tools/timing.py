#!/usr/bin/env python3
"""Measures entries: timing.py HARNESS REGEX [TIMEOUT [JOBS]]; updates timings.json
(seconds, or null where the budget did not suffice)."""
import fcntl
import json
import re
import subprocess
import sys
import time
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
import vplib  # noqa: E402

h, rx = sys.argv[1:3]
to = int(sys.argv[3]) if len(sys.argv) > 3 else 120
jobs = sys.argv[4] if len(sys.argv) > 4 else "8"
eng, bc = vplib.engine(), vplib.harness_bitcode(h)
tmp = Path(f"/tmp/timing-{h}.bc")
tmp.write_bytes(bc.read_bytes())
te = Path(f"/tmp/timing-eng-{h}")
te.write_bytes(eng.read_bytes())
te.chmod(0o755)
names = subprocess.run([te, "--bc", tmp, "--list"], capture_output=True, text=True).stdout.split()
T = V / "timings.json"
for e in names:
    n = e[2:]
    if not re.search(rx, n):
        continue
    out = Path(f"/tmp/timing-{h}.out")
    out.unlink(missing_ok=True)
    t = time.time()
    subprocess.run([te, "--bc", tmp, "--entry", e, "--out", out, "--jobs", jobs, "--timeout", str(to), "--query-timeout", "60",
                    "--sample", "0"], capture_output=True)
    dt = time.time() - t
    recs = [json.loads(l) for l in out.read_text().splitlines()]
    bad = [r for r in recs if r["kind"] != "summary"]
    v = None if any(r["kind"] == "inconclusive" for r in bad) or dt > to else round(dt, 1)
    with open(T.with_suffix(".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = json.loads(T.read_text()) if T.exists() else {}
        d.setdefault(h, {})[n] = v
        T.write_text(json.dumps(d, indent=0, sort_keys=True) + "\n")
    print(n, v, [str(r)[:200] for r in bad[:1]], [{k[6:]: c[0] for k, c in r["sites"].items() if k.startswith("cover")} for r in recs if r["kind"] == "summary"], flush=True)
