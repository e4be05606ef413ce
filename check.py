#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--tier quick|thorough].

Exit 0: the property held on everything explored. Exit 1: a violation was found
and reproduced against the real code. Exit 2: no answer (build failure, an entry
that reaches nothing, or fewer than half of the entries decided).

An entry on which the solver or the time budget gives out, or whose counterexample
does not reproduce natively, counts as unexplored: it is named in the output and in
the evidence, and is neither an alarm nor part of what held.
"""

import argparse
import json
import os
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import specs
import vplib
from vplib import VERIF

KNOWN = VERIF / "known_findings.json"


def load_known(prop):
    if not KNOWN.exists():
        return []
    return [k for k in json.loads(KNOWN.read_text()) if k["property"] == prop and k.get("status") == "known"]


def run_engine(job, tier, outdir, deadline):
    """Runs the symbolic executor on one harness entry."""
    eng = vplib.engine()
    bc = vplib.harness_bitcode(job["harness"], job.get("variant", ""))
    out = outdir / f"{job['entry']}.jsonl"
    if out.exists():
        out.unlink()
    budget = max(10, min(job.get("timeout", 800), int(deadline - time.time())))
    cmd = [
        str(eng), "--bc", str(bc), "--entry", job["entry"], "--out", str(out),
        "--jobs", str(job.get("jobs", 4)), "--timeout", str(budget),
        "--query-timeout", str(job.get("query_timeout", 60)),
        "--max-insts", str(job.get("max_insts", 20_000_000)),
        "--sample", str(job.get("sample", 2)),
    ]
    if job.get("bv"):
        cmd.append("--bv")
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    recs = []
    if out.exists():
        for line in out.read_text(errors="replace").splitlines():
            try:
                recs.append(json.loads(line))
            except json.JSONDecodeError:
                recs.append({"kind": "inconclusive", "what": "unreadable engine output"})
    return {"job": job, "recs": recs, "rc": r.returncode, "log": r.stdout[-2000:], "wall": time.time() - t}


def judge_cpp(prop, jobs, tier, deadline):
    outdir = vplib.BUILD / "out" / prop
    outdir.mkdir(parents=True, exist_ok=True)
    vplib.engine()
    for h, v in sorted({(j["harness"], j.get("variant", "")) for j in jobs}):
        vplib.repo_bitcode(v)
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(lambda hv: vplib.harness_bitcode(*hv),
                    sorted({(j["harness"], j.get("variant", "")) for j in jobs})))

    jobs = sorted(jobs, key=lambda j: -j.get("cost", 1))
    res = {"violations": [], "errors": [], "open": {}, "known": [], "entries": [], "samples": []}

    def undecided(job, why):
        res["open"].setdefault(job["entry"], why)

    with ThreadPoolExecutor(max_workers=4) as ex:
        futs = [ex.submit(run_engine, j, tier, outdir, deadline) for j in jobs]
        results = [f.result() for f in futs]

    raw = []
    for r in results:
        job = r["job"]
        summ = [x for x in r["recs"] if x.get("kind") == "summary"]
        for x in r["recs"]:
            if x.get("kind") == "violation":
                raw.append((job, x))
            elif x.get("kind") == "inconclusive":
                undecided(job, f"{x.get('what')} {x.get('msg', '')}".strip())
            elif x.get("kind") == "sample":
                res["samples"].append((job, x))
        if not summ:
            undecided(job, f"no summary (rc {r['rc']}): {r['log'][-500:]}")
            continue
        s = summ[-1]
        s["wall_s"] = round(r["wall"], 2)
        res["entries"].append(s)
        # Vacuity guards: paths completed and every "end" cover reached.
        sites = s.get("sites", {})
        if s.get("violations", 0) == 0:
            need = job.get("covers", ["end"])
            for c in need:
                if sites.get(f"cover:{c}", [0])[0] == 0 and job["entry"] not in res["open"]:
                    res["errors"].append(f"{job['entry']}: vacuous, never reached '{c}'")
            if s.get("unknown", 0):
                undecided(job, f"{s['unknown']} solver answers unknown")
    res["raw"] = raw
    return res


def confirm(prop, raw, known):
    """Replays counterexamples natively; returns (confirmed, known, not reproduced)."""
    wd = VERIF / "evidence" / "replay" / prop
    confirmed, hits, errors = [], [], {}
    seen = {}
    for job, x in raw:
        key = (job["entry"], x.get("msg"))
        if seen.get(key, 0) >= 2 or len(confirmed) >= 3:
            continue
        seen[key] = seen.get(key, 0) + 1
        k = next((k for k in known if k["entry"] == job["entry"] and k["msg"] == x.get("msg")), None)
        if k:
            hits.append(k)
            continue
        msg = x.get("msg", "")
        verdict, text, path = vplib.replay(job["harness"], job["entry"], x["inputs"], wd)
        ok = verdict == "violation" or (verdict == "timeout" and "terminat" in msg)
        if ok:
            lines = [l for l in text.splitlines() if "REPLAY-VIOLATION" in l or "ERROR:" in l or "runtime error" in l]
            path.write_text(
                f"# property {prop}, entry {job['entry']}: {msg}\n" + path.read_text()
            )
            confirmed.append({"entry": job["entry"], "msg": msg, "path": str(path),
                              "native": (lines or [text[:300]])[0]})
        else:
            errors[job["entry"]] = f"counterexample for '{msg}' did not reproduce ({verdict}: {text[-300:]})"
    return confirmed, hits, errors


def validate_samples(samples, limit):
    """Runs solver-chosen inputs of explored paths through the native build and
    compares the observed values with the symbolic ones."""
    n = 0
    errors = []
    wd = vplib.BUILD / "out" / "samples"
    for job, x in samples[:limit]:
        if job.get("variant") or job.get("nosample"):
            continue
        verdict, text, path = vplib.replay(job["harness"], job["entry"], x["inputs"], wd)
        obs = [int(l.split()[1]) for l in text.splitlines() if l.startswith("OBS ")]
        path.unlink(missing_ok=True)
        if verdict != "ok":
            errors.append(f"{job['entry']}: sampled path replays as {verdict}: {text[-200:]}")
        elif obs != x.get("obs", []):
            errors.append(f"{job['entry']}: observations differ: {obs} vs {x.get('obs')}")
        else:
            n += 1
    return n, errors


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    args = ap.parse_args()
    prop, tier = args.property, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = specs.PROPS[prop]
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    known = load_known(prop)

    jobs = [j for j in spec["jobs"] if tier == "thorough" or j.get("tier", "quick") == "quick"]
    if args.only:
        jobs = [j for j in jobs if args.only in j["entry"]]
    cpp = [j for j in jobs if j["kind"] == "cpp"]
    py = [j for j in jobs if j["kind"] == "py"]

    errors, confirmed, hits, entries = [], [], [], []
    undecided = {}
    validated = 0
    try:
        if cpp:
            r = judge_cpp(prop, cpp, tier, deadline)
            entries += r["entries"]
            errors += r["errors"]
            undecided.update(r["open"])
            if r["raw"]:
                c, k, e = confirm(prop, r["raw"], known)
                confirmed += c
                hits += k
                undecided.update(e)
            if not confirmed and tier == "thorough":
                validated, e = validate_samples(r["samples"], 60)
                errors += e
        if py:
            import pyjobs

            r = pyjobs.judge(prop, py, tier, deadline)
            entries += r["entries"]
            errors += r["errors"]
            undecided.update(r.get("open", {}))
            for v in r["violations"]:
                k = next((k for k in known if k["entry"] == v["entry"] and k["msg"] == v["msg"]), None)
                if k:
                    hits.append(k)
                else:
                    confirmed.append(v)
            validated += r.get("validated", 0)
    except vplib.BuildError as e:
        errors.append(f"build failed: {e}")
    except Exception:
        errors.append(traceback.format_exc())

    if jobs and 2 * len(undecided) > len(jobs):
        errors.append("more than half of the entries are undecided")

    wall = time.time() - t0
    funcs = sorted({f for s in entries for f in s.get("functions", [])})
    tot = lambda k: sum(s.get(k, 0) for s in entries)
    coverage = {
        "explanation": spec["explanation"],
        "bounds": spec["bounds"],
        "outside": spec.get("outside", ""),
        "entries": [
            {k: s.get(k) for k in ("entry", "paths", "forks", "queries", "sat", "unsat", "unknown", "insts",
                                   "solver_ms", "wall_s", "violations", "trivial_checks")}
            for s in entries
        ],
        "assertions": sorted({k for s in entries for k in s.get("sites", {}) if k.startswith("check:")}),
        "paths": tot("paths"),
        "queries_discharged": tot("queries"),
        "unsat": tot("unsat"),
        "sat": tot("sat"),
        "unknown": tot("unknown"),
        "solver_s": round(tot("solver_ms") / 1000, 2),
        "instructions": tot("insts"),
        "functions_encoded": funcs,
        "native_replays_agreeing": validated,
        "undecided_entries": undecided,
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": spec.get("level", "other"),
        "coverage": coverage,
        "wall_s": round(wall, 2),
        "assumptions": spec.get("assumptions", []),
        "violations": len(confirmed),
    }
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    (evdir / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")

    for k in {(k["entry"], k["msg"]): k for k in hits}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for e in errors[:20]:
        print("note:", e)
    for k, v in list(undecided.items())[:20]:
        print(f"note: {k} not decided, and not part of what held: {v}")
    for s in entries:
        print(f"{s['entry']}: {s['paths']} paths, {s['queries']} queries "
              f"({s.get('unsat')} unsat), solver {s.get('solver_ms', 0) / 1000:.1f} s, wall {s.get('wall_s')} s")
    print(f"{prop} {tier}: {tot('paths')} paths, {tot('queries')} queries, "
          f"solver {tot('solver_ms') / 1000:.1f} s, wall {wall:.1f} s")
    if confirmed:
        for c in confirmed:
            print(f"violated: {c['msg']} [{c['entry']}]: {c['native']}")
        print(f"VIOLATION property={prop} replay={confirmed[0]['path']}")
        sys.exit(1)
    sys.exit(2 if errors else 0)


if __name__ == "__main__":
    sys.path.insert(0, str(Path(__file__).resolve().parent))
    main()
