"""Build steps shared by the checks: bitcode of the current /repo tree, the
symbolic executor, harness modules and the native replay programs."""

import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))  # another tree only while developing
BUILD = VERIF / "build"
CPP = REPO / "pyvrp" / "cpp"

FLAGS = [
    "-std=c++20",
    "-DNDEBUG",
    "-DPYVRP_LOG_LEVEL=6",
    "-DSPDLOG_USE_STD_FORMAT",
    f"-I{CPP}",
    f"-I{VERIF}/harness",
    f"-I{VERIF}/harness/mock",  # a model of pybind11, for the bindings
    "-w",
]
BCFLAGS = [
    "-O1",
    "-fno-vectorize",
    "-fno-slp-vectorize",
    "-fno-unroll-loops",
    "-emit-llvm",
]
# Variant used for the arithmetic check: every signed overflow traps.
OVFLAGS = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero",
           "-fsanitize-trap=all"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(
        [str(c) for c in cmd],
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        **kw,
    )
    if r.returncode != 0:
        raise BuildError(f"{' '.join(map(str, cmd))}\n{r.stdout[-6000:]}")
    return r.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(map(str, paths)):
        h.update(p.encode())
        h.update(Path(p).read_bytes())
    return h.hexdigest()[:20]


class Lock:
    def __init__(self, name):
        BUILD.mkdir(parents=True, exist_ok=True)
        self.path = BUILD / f"{name}.lock"

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    """Returns the path of the symbolic executor, building it if needed."""
    src = list((VERIF / "engine").glob("*"))
    out = BUILD / f"symex-{digest(src)}"
    with Lock("engine"):
        if not out.exists():
            for old in BUILD.glob("symex-*"):
                old.unlink()
            tmp = out.with_suffix(".tmp")
            run(["bash", VERIF / "engine" / "build.sh", tmp])
            os.rename(tmp, out)
    return out


def repo_sources():
    return [
        p
        for d in (CPP, CPP / "search")
        for p in sorted(d.glob("*.cpp"))
        if p.name != "bindings.cpp"
    ]


def repo_files():
    return [
        p for p in sorted(CPP.rglob("*")) if p.is_file() and p.suffix in (".h", ".cpp", ".hpp")
    ]


def tree_dir(extra=""):
    d = BUILD / ("tree-" + digest(repo_files(), " ".join(FLAGS + BCFLAGS + OVFLAGS)))
    if not d.exists():
        # Old trees are removed, so that disk use stays bounded.
        for old in sorted(BUILD.glob("tree-*"), key=lambda p: p.stat().st_mtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        d.mkdir(parents=True, exist_ok=True)
    return d


def parallel(cmds):
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(run, cmds))


def repo_bitcode(variant=""):
    """Compiles all of the C++ core to LLVM bitcode, and links it."""
    with Lock("tree"):
        d = tree_dir()
        out = d / f"core{variant}.bc"
        if out.exists():
            return out
        extra = OVFLAGS if variant == "-ov" else []
        objs, cmds = [], []
        for src in repo_sources():
            o = d / (str(src.relative_to(CPP)).replace("/", "_") + variant + ".bc")
            objs.append(o)
            cmds.append(["clang++-18", *FLAGS, *BCFLAGS, *extra, "-c", src, "-o", o])
        parallel(cmds)
        tmp = d / f"core{variant}.tmp"
        run(["llvm-link-18", *objs, "-o", tmp])
        os.rename(tmp, out)
        return out


OVERRIDES = "VP_RNG"


def override(src, step):
    """Harnesses that mention VP_RNG replace the random number generator by one
    that draws anything; where the generator is written such that it cannot be
    replaced, they use the real one."""
    if OVERRIDES in src.read_text():
        try:
            return step([f"-D{OVERRIDES}"])
        except BuildError:
            pass
    return step([])


def harness_bitcode(name, variant=""):
    core = repo_bitcode(variant)
    d = core.parent
    hs = list((VERIF / "harness").rglob("*"))
    key = digest([p for p in hs if p.is_file() and (p.suffix != ".cpp" or p.stem == name)])
    out = d / f"h_{name}{variant}-{key}.bc"
    with Lock(f"h_{name}"):
        if not out.exists():
            for old in d.glob(f"h_{name}{variant}-*"):
                old.unlink()
            extra = OVFLAGS if variant == "-ov" else []
            tmp, tmp2 = out.with_suffix(".t1"), out.with_suffix(".t2")
            src = VERIF / "harness" / f"{name}.cpp"
            cc = ["clang++-18", *FLAGS, *BCFLAGS, *extra, "-c", src, "-o", tmp]
            override(src, lambda f: run([*cc, *f]))
            run(["llvm-link-18", core, f"--override={tmp}" if OVERRIDES in src.read_text() else tmp, "-o", tmp2])
            os.unlink(tmp)
            os.rename(tmp2, out)
    return out


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-fno-omit-frame-pointer"]


def replay_program(name):
    """Native program running the harness against the real, compiled code."""
    with Lock("tree"):
        d = tree_dir()
        lib = d / "native.stamp"
        objs, cmds = [], []
        for src in repo_sources():
            o = d / (str(src.relative_to(CPP)).replace("/", "_") + ".o")
            objs.append(o)
            cmds.append(["g++", *FLAGS, "-O1", *SAN, "-c", src, "-o", o])
        if not lib.exists():
            parallel(cmds)
            lib.write_text("ok")
        hs = list((VERIF / "harness").rglob("*"))
        key = digest([p for p in hs if p.is_file()])
        out = d / f"replay_{name}-{key}"
        if not out.exists():
            src = VERIF / "harness" / f"{name}.cpp"
            rep = VERIF / "harness" / "replay.cpp"
            o1, o2 = d / f"rh_{name}.o", d / f"rr_{name}.o"
            cc = ["g++", *FLAGS, "-O1", *SAN, "-c"]
            override(src, lambda f: parallel([[*cc, *f, src, "-o", o1], [*cc, rep, "-o", o2]]))
            run(["g++", *SAN, "-rdynamic", "-Wl,--allow-multiple-definition", o1, o2, *objs, "-o", out, "-ldl"])
        return out


def replay(name, entry, inputs, workdir, timeout=120):
    """Runs a counterexample natively. Returns (reproduced, text, path)."""
    prog = replay_program(name)
    workdir.mkdir(parents=True, exist_ok=True)
    h = hashlib.sha256(json.dumps(inputs).encode()).hexdigest()[:10]
    f = workdir / f"{entry}-{h}.txt"
    f.write_text("".join(f"{n} {v}\n" for n, v in inputs))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = subprocess.run(
            [str(prog), entry, str(f)],
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
            timeout=timeout,
            env=env,
            errors="replace",
        )
    except subprocess.TimeoutExpired:
        return "timeout", "replay did not terminate", f
    if r.returncode == 0 and "REPLAY-OK" in r.stdout:
        return "ok", r.stdout, f
    if r.returncode in (2, 3, 4):
        return "mismatch", r.stdout, f
    return "violation", r.stdout, f


def now():
    return time.time()


def die(msg, code=2):
    print(msg)
    sys.stdout.flush()
    sys.exit(code)
