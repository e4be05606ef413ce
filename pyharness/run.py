"""run.py MODULE ENTRY OUT BUDGET: explores one entry; run.py --replay FILE: replays inputs."""

import importlib
import json
import sys
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True

import load  # noqa: E402
import sym  # noqa: E402


FUNCS = set()
PREFIX = str(load.REPO / "pyvrp")


def profiler(frame, event, arg):
    if event == "call":
        f = frame.f_code.co_filename
        if f.startswith(PREFIX):
            FUNCS.add(f"{Path(f).name}:{frame.f_code.co_qualname}")


def main():
    if sys.argv[1] == "--replay":
        d = json.loads("".join(l for l in Path(sys.argv[2]).read_text().splitlines(True) if not l.startswith("#")))
        entry = getattr(importlib.import_module(d["module"]), d["entry"])
        try:
            entry(sym.Concrete(d["inputs"]))
        except sym.Violation as e:
            print("REPLAY-VIOLATION:", e)
            sys.exit(1)
        except sym.Infeasible:
            print("REPLAY-ASSUME-FAILED")
            sys.exit(3)
        except sym.Unsupported as e:
            print("REPLAY-UNSUPPORTED:", e)
            sys.exit(3)
        except Exception as e:  # noqa: BLE001
            print(f"REPLAY-VIOLATION: unexpected {type(e).__name__}: {e}")
            sys.exit(1)
        print("REPLAY-OK")
        return
    module, entry, out, budget = sys.argv[1:5]
    t = load.REAL["perf_counter"]()
    f = getattr(importlib.import_module(module), entry)
    ex = sym.Symbolic(t + float(budget))
    runs = [0]

    def once(vp):
        runs[0] += 1
        if runs[0] <= 40:
            sys.setprofile(profiler)
            try:
                f(vp)
            finally:
                sys.setprofile(None)
        else:
            f(vp)

    ex.explore(once)
    s = dict(ex.stats, entry=entry, sites=ex.sites, functions=sorted(FUNCS), insts=0,
             wall_s=round(load.REAL["perf_counter"]() - t, 2))
    Path(out).write_text(json.dumps(dict(summary=s, undecided=ex.undecided, found=ex.found)))


main()
