"""What is written to files and read back, and what the command line runs."""

import io
import types

import load
import sym
from ils import Sol
from read import Activity, ActivityType, DataOf, Record, Route, Solution
from sym import both

TEXT = {}


def text(v):
    """The text of a symbolic value: a mark that only reading it as a number understands."""
    s = f"\u00a7{len(TEXT)}"
    TEXT[s] = v
    return s


sym.Sym.__repr__ = sym.Sym.__str__ = text


def marked(base, plain):
    class T(type):
        def __instancecheck__(cls, o):
            return load.sym_isinstance(o, plain)

        def __call__(cls, v=0, *a):
            if isinstance(v, str) and v.strip() in TEXT:
                return base(TEXT[v.strip()])
            return base(v, *a)

    return T("int", (), {})


Int = marked(load.sym_int, int)
Float = marked(lambda v: v if isinstance(v, sym.Sym) else float(v), float)


class Files:
    """Files that exist in memory only."""

    def __init__(self):
        self.d = {}

    def __call__(self, where, mode="r", *a, **k):
        name, d = str(where), self.d
        if "w" in mode:
            class W(io.StringIO):
                def close(self):
                    if not self.closed:
                        d[name] = self.getvalue()
                    super().close()

            return W()
        if name not in d:
            raise load.genuine(FileNotFoundError(name))
        return io.StringIO(d[name]) if "b" not in mode else io.BytesIO(d[name].encode())


FIELDS = ("current", "candidate", "best")


def stats(vp, n, sep):
    """Statistics written to a file and read back are the same."""
    class Ce(load.Model):
        penalised_cost = staticmethod(lambda s: s.obj)

    load.fresh()
    m = load.get("pyvrp.Statistics")
    files = Files()
    real = m.fields
    m.perf_counter = load._clock
    m.open, m.int, m.float = files, Int, Float
    m.isinstance = load.sym_isinstance

    def fields(c):
        kinds = {int: Int, float: Float, "int": Int, "float": Float, "bool": bool}
        return [types.SimpleNamespace(name=f.name, type=kinds.get(f.type, f.type)) for f in real(c)]

    m.fields = fields
    st = m.Statistics()
    times = []
    for k in range(n):
        sols = [Sol(vp, f"{w}_{k}") for w in FIELDS]
        for s in sols:
            if not isinstance(s.feas, bool):
                s.feas = bool(s.feas)
        t = vp.real(f"time_{k}", 0, 1000)
        load.NOW[0] = load.NOW[0] + t
        times.append(t)
        st.collect(*sols, Ce())
    kw = {} if sep is None else {"delimiter": sep}
    st.to_csv("a.csv", **kw)
    got = m.Statistics.from_csv("a.csv", **kw)
    vp.check(got.num_iterations == st.num_iterations == n, "the number of iterations")
    vp.check(len(got.runtimes) == len(got.data) == n, "as many rows")
    for k in range(n):
        vp.check(got.runtimes[k] == st.runtimes[k], "the runtimes")
        for w in FIELDS:
            vp.check(getattr(got.data[k], f"{w}_cost") == getattr(st.data[k], f"{w}_cost"), "the costs")
            a, b = getattr(got.data[k], f"{w}_feas"), getattr(st.data[k], f"{w}_feas")
            vp.check(isinstance(a, (bool, sym.SymBool)) and (a == b), "the feasibilities")
    vp.check(got == st, "the same statistics")
    vp.cover("end")


class Res(load.Model):
    def __init__(self, best, cost):
        self.best, self._cost = best, cost

    def cost(self):
        return self._cost

    def is_feasible(self):
        return True


class Kept(load.Model):
    """A route of a solution."""

    def __init__(self, acts, vt):
        self.acts, self.vt = acts, vt

    def __iter__(self):
        return iter(self.acts)

    def __len__(self):
        return len(self.acts)

    def __getitem__(self, i):
        return self.acts[i]

    def vehicle_type(self):
        return self.vt

    def start_depot(self):
        return self.acts[0].idx

    end_depot = start_depot


class KeptSol(load.Model):
    def __init__(self, rs):
        self.rs = rs

    def routes(self):
        return list(self.rs)

    def num_routes(self):
        return len(self.rs)


def parse_solution(txt):
    """As the vrplib package does."""
    sol = {"routes": []}
    for line in (l.strip() for l in txt.splitlines() if l.strip()):
        if "Route" in line:
            sol["routes"].append([int(i) for i in line.split(":")[1].split(" ") if i])
        elif ":" in line or " " in line:
            k, v = [w.strip() for w in line.split(":" if ":" in line else " ", 1)]
            sol[k.lower()] = v
    return sol


def cli(files, calls):
    class Result(load.Model):
        pass

    core = {"Activity": Activity, "ActivityType": ActivityType, "Route": Route, "Solution": Solution}
    lib = {"read_solution": lambda where, *a, **k: parse_solution(files.d[str(where)])}
    pkg = load.fresh(core=core, stubs={"vrplib": lib, "tqdm.contrib.concurrent": {}, "tqdm": {}, "tqdm.contrib": {}})
    pkg.ActivityType, pkg.ProblemData, pkg.Result = ActivityType, DataOf, Result

    class Params(load.Model):
        def __init__(self):
            self.src = None

        @classmethod
        def from_file(cls, where):
            p = cls()
            p.src = where
            return p

    def solve(data, stop, seed=0, collect_stats=True, display=False, params=None, initial_solution=None):
        calls.append(types.SimpleNamespace(data=data, stop=stop, seed=seed, collect=collect_stats, params=params,
                                           initial=initial_solution))
        return calls[0].result

    pkg.SolveParams, pkg.solve = Params, solve
    c = load.get("pyvrp.cli")
    c.open = files
    return c, load.get("pyvrp.read")


def solution(vp, ships, types_, start):
    """A written solution is the solution read from the file."""
    files = Files()
    c, r = cli(files, [])
    nd = 2
    if ships:
        ats = [(5, 2), (3, 4)]
        data = DataOf(nd, types_, [], ats)
        acts = [Activity("pickup", 0), Activity("delivery", 0), Activity("pickup", 1), Activity("delivery", 1)]
    else:
        data = DataOf(nd, types_, [2, 3, 4, 5], [])
        acts = [Activity("client", i) for i in range(4)]
    acts.append(Activity("depot", 1))
    ends = Activity("depot", start)
    routes, left = [], {t: len(vs) for t, vs in enumerate(types_)}
    for k in range(2):
        n = vp.choose(f"length_{k}", 3)
        vt = vp.choose(f"type_{k}", len(types_))
        if left[vt] == 0:
            return
        left[vt] -= 1
        routes.append(Kept([ends] + [acts[vp.choose(f"visit_{k}_{i}", 5)] for i in range(n)] + [ends], vt))
    c.write_solution("a.sol", data, Res(KeptSol(routes), vp.int("cost", 0, 10**9)))
    if "read_solution" not in r.__dict__:
        raise sym.Unsupported("no reader")
    got = list(r.read_solution("a.sol", data).routes)
    full = [x for x in routes if len(x) > 2]
    vp.check(len(got) == len(full), "as many routes")
    key = lambda vt, a: (vt, [(x.type, x.idx) for x in a])
    vp.check(sorted(key(int(g.vehicle_type), g.activities) for g in got) == sorted(key(f.vt, f.acts[1:-1]) for f in full),
             "the routes' visits and vehicle types")
    vp.cover("end")


def command(vp):
    """The command line solves what it is given, as it is told."""
    files, calls = Files(), []
    m, _ = cli(files, calls)
    st = load.get("pyvrp.stop")
    nc = vp.int("clients", 1, 1000)
    data = DataOf(1, [[0]], [1], [])
    data.num_clients = nc
    seen = []
    m.read = lambda where, round_func="none": seen.append((where, round_func)) or data

    class Where:
        def __init__(self, n):
            self.n, self.stem, self.made = n, "inst", False

        def mkdir(self, parents=False, exist_ok=False):
            vp.check(parents is True and exist_ok is True, "the directories are made where needed")
            self.made = True

        def __truediv__(self, o):
            return f"{self.n}/{o}"

    written = []
    cost, feas = vp.int("cost", 0, 10**9), bool(vp.choose("feasible", 2))
    res = types.SimpleNamespace(
        stats=types.SimpleNamespace(to_csv=lambda w: written.append(("stats", str(w)))), is_feasible=lambda: feas,
        cost=lambda: cost, num_iterations=vp.int("iterations", 0, 10**6), runtime=1.5)
    m.write_solution = lambda w, d, r: written.append(("sol", str(w), d, r))
    lim = [vp.real("runtime", 0, 1000), vp.int("max_iterations", 0, 1000), vp.int("no_improvement", 0, 1000)]
    per, conf = bool(vp.choose("per_client", 2)), vp.choose("config", 2)
    sdir = Where("s") if vp.choose("stats_dir", 2) else None
    odir = Where("o") if vp.choose("sol_dir", 2) else None
    got = []

    def crit(kind):
        return lambda v: types.SimpleNamespace(kind=kind, value=v)

    m.MaxRuntime, m.MaxIterations, m.NoImprovement = crit(0), crit(1), crit(2)
    m.MultipleCriteria = lambda cs: types.SimpleNamespace(criteria=list(cs))

    def solve(data, stop, seed=0, collect_stats=True, display=False, params=None, initial_solution=None):
        got.append((data, stop, seed, collect_stats, params, initial_solution))
        return res

    m.solve = solve
    kw = {"config_loc": "c.toml"} if conf else {"config_loc": None} if vp.choose("config_none", 2) else {}
    seed = vp.int("seed", 0, 10**6)
    src = Where("i")
    out = m._solve(src, "exact", seed, *lim, per, sdir, odir, **kw)
    vp.check(len(seen) == 1 and seen[0] == (src, "exact"), "the instance is read with the rounding asked for")
    vp.check(len(got) == 1, "it is solved once")
    d, stop, s, coll, params, init = got[0]
    vp.check(d is data and init is None, "the instance is solved")
    vp.check(s == seed, "with the seed given")
    vp.check(bool(coll) == (sdir is not None), "statistics are collected if they are to be stored")
    vp.check(params.src == ("c.toml" if conf else None), "with the parameters given")
    for k in range(3):
        cs = [c for c in stop.criteria if c.kind == k]
        vp.check(len(cs) == 1, "each stopping criterion once")
        vp.check(cs[0].value == (lim[k] * nc if per else lim[k]), "the limits, per client if asked")
    want = ([("stats", "s/inst.csv")] if sdir else []) + ([("sol", "o/inst.sol", data, res)] if odir else [])
    vp.check(sorted(w[:2] for w in written) == sorted(w[:2] for w in want), "what is asked for is stored")
    vp.check(all(w[2] is data and w[3] is res for w in written if w[0] == "sol"), "the result is stored")
    vp.check(out[0] == "inst" and out[1] == ("Y" if feas else "N"), "the name and feasibility reported")
    vp.check(both(out[2] == cost, out[3] == res.num_iterations, out[4] == 1.5), "the cost, iterations and runtime reported")
    vp.cover("end")


def config(vp, which):
    """Parameters have the values of the file, or the defaults."""
    class Given(load.Model):
        def __init__(self, *a, **kw):
            self.kw = kw

        def __eq__(self, o):
            return type(self) is type(o) and self.kw == o.kw

    N = type("NeighbourhoodParams", (Given,), {})
    P = type("PerturbationParams", (Given,), {})
    ops = {n: type(n, (), {}) for n in ("Relocate1", "SwapTails", "Swap11")}
    load.fresh(search={"NeighbourhoodParams": N, "PerturbationParams": P, "PerturbationManager": Given, **ops}, stubs={"tomllib": {}})
    m = load.get("pyvrp.solve")
    il, pe = load.get("pyvrp.IteratedLocalSearch").IteratedLocalSearchParams, load.get("pyvrp.PenaltyManager").PenaltyParams
    toml, want = {}, {}
    if which == 0:
        if vp.choose("ils", 2):
            keys = dict(num_iters_no_improvement=vp.int("restart", 0, 10**6), history_length=vp.int("history", 1, 10**6),
                        exhaustive_on_best=bool(vp.choose("exhaustive", 2)))
            keys = {k: v for i, (k, v) in enumerate(keys.items()) if vp.choose(f"ils_{i}", 2)}
            toml["ils"] = keys
        if vp.choose("penalty", 2):
            keys = dict(solutions_between_updates=vp.int("between", 1, 10**6), penalty_increase=vp.real("increase", 1, 10),
                        penalty_decrease=vp.real("decrease", 0, 1), target_feasible=vp.real("target", 0, 1),
                        feas_tolerance=vp.real("tolerance", 0, 1), min_penalty=vp.real("min", 0, 10),
                        max_penalty=vp.real("max", 10, 10**6))
            toml["penalty"] = keys
    else:
        for n in ("neighbourhood", "perturbation"):
            if vp.choose(n, 2):
                toml[n] = {"a": vp.int(f"{n}_a", 0, 10**6), "b": vp.int(f"{n}_b", 0, 10**6)}
        if vp.choose("operators", 2):
            toml["operators"] = [list(ops)[vp.choose(f"operator_{i}", 3)] for i in range(vp.choose("num_operators", 3))]
        if vp.choose("display", 2):
            toml["display_interval"] = vp.real("interval", 0, 100)
    m.tomllib = types.SimpleNamespace(load=lambda fh: {k: (dict(v) if isinstance(v, dict) else v) for k, v in toml.items()})
    files = Files()
    files.d["c.toml"] = ""
    m.open = files
    p = m.SolveParams.from_file("c.toml")
    for obj, cls, sec in ((p.ils, il, "ils"), (p.penalty, pe, "penalty")):
        default = cls()
        vp.check(isinstance(obj, cls), "the kind of parameters")
        for k in (n for n, f in default.__dataclass_fields__.items() if f.compare):
            vp.check(getattr(obj, k) == toml.get(sec, {}).get(k, getattr(default, k)), "the value in the file, else the default")
    for obj, cls, sec in ((p.neighbourhood, N, "neighbourhood"), (p.perturbation, P, "perturbation")):
        vp.check(isinstance(obj, cls) and set(obj.kw) == set(toml.get(sec, {})), "the values given")
        for k, v in toml.get(sec, {}).items():
            vp.check(obj.kw[k] == v, "the value in the file")
    if "operators" in toml:
        vp.check([o.__name__ for o in p.operators] == toml["operators"], "the operators listed, in order")
    else:
        vp.check(p.operators is m.OPERATORS or list(p.operators) == list(m.OPERATORS), "all default operators")
    vp.check(p.display_interval == toml.get("display_interval", 5.0), "the display interval")
    vp.check(p == m.SolveParams.from_file("c.toml"), "read again, they are equal")
    vp.cover("end")


def stats_1(vp): stats(vp, 1, None)
def stats_2(vp): stats(vp, 2, ";")
def stats_0(vp): stats(vp, 0, None)
def sol_one(vp): solution(vp, False, [[0, 1, 2]], 0)
def sol_two(vp): solution(vp, False, [[0, 2], [1]], 0)
def sol_rev(vp): solution(vp, False, [[2], [0, 1]], 1)
def sol_ships(vp): solution(vp, True, [[1, 2], [0]], 0)
def sol_ship1(vp): solution(vp, True, [[0, 1]], 1)
def config_0(vp): config(vp, 0)
def config_1(vp): config(vp, 1)
