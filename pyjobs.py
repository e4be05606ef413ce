"""Runs the Python entries: symbolic exploration, then a replay of every counterexample."""

import json
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

import vplib

PY = "python3-vt"
RUN = vplib.VERIF / "pyharness" / "run.py"


def explore(prop, job, deadline):
    out = vplib.BUILD / "out" / prop / f"{job['module']}.{job['entry']}.json"
    out.parent.mkdir(parents=True, exist_ok=True)
    out.unlink(missing_ok=True)
    budget = max(10, min(job.get("timeout", 800), deadline - time.time()))
    r = subprocess.run([PY, str(RUN), job["module"], job["entry"], str(out), str(budget)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not out.exists():
        return None, r.stdout[-1500:]
    return json.loads(out.read_text()), ""


def replay(prop, job, msg, inputs, n):
    d = vplib.VERIF / "evidence" / "replay" / prop
    d.mkdir(parents=True, exist_ok=True)
    path = d / f"{job['module']}.{job['entry']}.{n}.json"
    body = json.dumps({"module": job["module"], "entry": job["entry"], "inputs": inputs}, indent=1)
    path.write_text(f"# property {prop}, {msg}\n# replay: {PY} {RUN} --replay {path}\n{body}\n")
    r = subprocess.run([PY, str(RUN), "--replay", str(path)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=120)
    return r.returncode == 1 and "REPLAY-VIOLATION" in r.stdout, r.stdout.strip()[-300:], path


def judge(prop, jobs, tier, deadline):
    res = dict(entries=[], errors=[], open={}, violations=[], validated=0)
    jobs = sorted(jobs, key=lambda j: -j.get("cost", 1))
    with ThreadPoolExecutor(max_workers=8) as ex:
        done = list(ex.map(lambda j: explore(prop, j, deadline), jobs))
    for job, (d, log) in zip(jobs, done):
        if d is None:
            res["open"][job["entry"]] = f"no result: {log}"
            continue
        s = d["summary"]
        res["entries"].append(s)
        if d["undecided"]:
            res["open"][job["entry"]] = d["undecided"][0]
        bad = False
        for n, (msg, inputs) in enumerate(d["found"]):
            ok, text, path = replay(prop, job, msg, inputs, n)
            if ok:
                bad = True
                if len(res["violations"]) < 3:
                    res["violations"].append(dict(entry=job["entry"], msg=msg, path=str(path), native=text))
            else:
                path.unlink(missing_ok=True)
                res["open"].setdefault(job["entry"], f"counterexample for '{msg}' did not reproduce ({text})")
        if not d["found"] and not d["undecided"]:
            for c in job.get("covers", ["end"]):
                if s["sites"].get(f"cover:{c}", [0])[0] == 0:
                    res["errors"].append(f"{job['entry']}: vacuous, never reached '{c}'")
    return res
