"""Iterated local search: the real loop, on solutions whose costs and feasibility are symbolic.

The search method returns arbitrary solutions; a cost evaluator gives every solution an
arbitrary penalised cost, which may differ between evaluators unless the solution is feasible."""

import load
import sym
from sym import both, either, implies, ite, negate

INT_MAX = 2**63 - 1
B = 10**9


class Sol(load.Model):
    def __init__(self, vp, name, fixed=None):
        self.name = name
        self.vp = vp
        self.feas = vp.bool(f"{name}_feasible") if fixed is None else fixed
        self.obj = vp.int(f"{name}_cost", -B, B)
        self.pen = {}

    def is_feasible(self):
        return self.feas

    def excess_load(self):
        return []

    def penalised(self, k):
        if k not in self.pen:
            p = self.vp.int(f"{self.name}_penalised_{k}", -B, B)
            self.pen[k] = ite(self.feas, self.obj, p)
        return self.pen[k]


class Evaluator(load.Model):
    def __init__(self, k):
        self.k = k

    def cost(self, solution):
        return ite(solution.feas, solution.obj, INT_MAX)

    def penalised_cost(self, solution):
        return solution.penalised(self.k)


class Penalties(load.Model):
    """Every evaluator it gives out may weigh violations differently; they change only
    when a solution is registered."""

    def __init__(self):
        self.registered = []

    def cost_evaluator(self):
        return Evaluator(len(self.registered))

    def max_cost_evaluator(self):
        return Evaluator(-1)

    def register(self, sol):
        self.registered.append(sol)


class Search(load.Model):
    def __init__(self, vp, better):
        self.vp, self.better = vp, better
        self.calls = []  # (from, exhaustive, result, evaluator)

    def __call__(self, solution, cost_evaluator, exhaustive=False):
        ex = bool(exhaustive)
        new = Sol(self.vp, f"{'exhaustive' if ex else 'found'}{len(self.calls)}")
        if ex and self.better:
            # What exhaustive search promises (decided for the real search by other
            # properties): its penalised cost is not larger.
            self.vp.assume(new.penalised(cost_evaluator.k) <= solution.penalised(cost_evaluator.k))
        self.calls.append((solution, ex, new, cost_evaluator.k))
        return new


class Stop(load.Model):
    def __init__(self, iters):
        self.iters, self.seen = iters, []

    def __call__(self, best_cost):
        self.seen.append(best_cost)
        return len(self.seen) > self.iters


def setup(vp, iters, history=1, restart=100, exhaustive=False, collect=True, better=True, callbacks=None):
    load.fresh()
    m = load.get("pyvrp.IteratedLocalSearch")
    init = Sol(vp, "initial")
    pm, search, stop = Penalties(), Search(vp, better), Stop(iters)
    kw = {}
    if callbacks:
        kw["callbacks"] = callbacks(m)
    params = m.IteratedLocalSearchParams(
        num_iters_no_improvement=restart, history_length=history, exhaustive_on_best=exhaustive, **kw
    )
    algo = m.IteratedLocalSearch(None, pm, search, init, params)
    return m, algo, init, pm, search, stop


def cost(s):
    return ite(s.feas, s.obj, INT_MAX)


def best_of(sols):
    return sym.smin([cost(s) for s in sols])


def result_is_best(vp, iters, exhaustive, collect=True):
    m, algo, init, pm, search, stop = setup(vp, iters, exhaustive=exhaustive, restart=2)
    res = algo.run(stop, collect_stats=collect, display=False)
    seen = [init] + [c[2] for c in search.calls]
    vp.check(any(res.best is s for s in seen), "the result is a solution that was seen")
    vp.check(cost(res.best) == best_of(seen), "the result has the least cost of all feasible solutions seen")
    vp.check(res.num_iterations == iters, "the number of iterations")
    plain = [c for c in search.calls if not c[1]]
    vp.check(len(plain) == iters, "one search per iteration")
    vp.check(len(pm.registered) == iters and all(a is b[2] for a, b in zip(pm.registered, plain)),
             "every candidate is registered once")
    vp.check(res.stats.num_iterations == (iters if collect else 0), "statistics per iteration, if collected")
    vp.cover("end")


def stopping(vp, iters, exhaustive):
    """The stopping criterion is asked before every iteration, with the cost of the best so far."""
    m, algo, init, pm, search, stop = setup(vp, iters, exhaustive=exhaustive)
    algo.run(stop, display=False)
    vp.check(len(stop.seen) == iters + 1, "asked once before each iteration and obeyed")
    sofar, j = [init], 0
    calls = list(search.calls)
    for k, c in enumerate(stop.seen):
        vp.check(c == best_of(sofar), "asked with the cost of the best solution so far")
        if k == iters:
            break
        sofar.append(calls[j][2])
        j += 1
        while j < len(calls) and calls[j][1]:
            sofar.append(calls[j][2])
            j += 1
    vp.cover("end")


def acceptance(vp, iters, history, restart):
    """Late acceptance hill-climbing, replayed from the description."""
    currents = []

    def watch(m):
        class Watch(m.IteratedLocalSearchCallbacks):
            def on_iteration(self, current, candidate, best, cost_evaluator):
                currents.append(current)

        return Watch()

    m, algo, init, pm, search, stop = setup(vp, iters, history=history, restart=restart, callbacks=watch)
    algo.run(stop, display=False)
    curr = best = init
    past, pos, idle = [None] * history, 0, 0
    for k, (frm, ex, cand, ev) in enumerate(search.calls):
        if idle == restart:
            past, pos, idle, curr = [None] * history, 0, 0, best
        vp.check(frm is curr, "the search continues from the current solution")
        idle += 1
        if cost(cand) < cost(best):
            best, idle = cand, 0
        late = past[pos % history]
        bar = (init if late is None else late).penalised(ev)
        if either(cand.penalised(ev) < bar, cand.penalised(ev) < curr.penalised(ev)):
            curr = cand
        if late is None or curr.penalised(ev) < bar:
            past[pos % history] = curr
        pos += 1
        vp.check(currents[k] is curr, "the candidate is accepted as described")
    vp.cover("end")


def callbacks(vp, iters, exhaustive, restart):
    log = []

    def make(m):
        class Log(m.IteratedLocalSearchCallbacks):
            def on_start(self, ils):
                log.append(("start", ils))

            def on_end(self, result):
                log.append(("end", result))

            def on_iteration(self, current, candidate, best, cost_evaluator):
                log.append(("iteration", current, candidate, best, cost_evaluator.k))

            def on_restart(self, best):
                log.append(("restart", best))

            def on_best(self, best):
                log.append(("best", best))

        return Log()

    m, algo, init, pm, search, stop = setup(vp, iters, exhaustive=exhaustive, restart=restart, callbacks=make)
    res = algo.run(stop, display=False)
    vp.check(log[0][0] == "start" and log[0][1] is algo, "start is announced first")
    vp.check(log[-1][0] == "end" and log[-1][1] is res, "the result is announced last")
    vp.check(sum(e[0] in ("start", "end") for e in log) == 2, "start and end are announced once")
    its = [e for e in log if e[0] == "iteration"]
    vp.check(len(its) == iters, "every iteration is announced")
    body, best, idle = log[1:-1], init, 0
    calls = list(search.calls)
    for k in range(iters):
        if idle == restart:
            vp.check(body and body[0][0] == "restart" and body[0][1] is best, "a restart is announced with the best")
            body = body[1:]
            vp.check(calls[0][0] is best, "a restart continues from the best")
            idle = 0
        idle += 1
        cand = calls.pop(0)[2]
        if cost(cand) < cost(best):
            idle = 0
            options = [cand]
            while calls and calls[0][1]:
                options.append(calls.pop(0)[2])
            vp.check(len(options) == (2 if exhaustive else 1), "new best solutions are searched exhaustively if so configured")
            vp.check(body and body[0][0] == "best" and any(body[0][1] is o for o in options), "a new best is announced")
            best = body[0][1]
            body = body[1:]
            vp.check(cost(best) == best_of(options), "the announced best is the better one")
            cand = options[-1]
        vp.check(body and body[0][0] == "iteration", "then the iteration is announced")
        _, current, candidate, b, ev = body[0]
        body = body[1:]
        vp.check(b is best, "the best so far is announced")
        vp.check(candidate is cand, "the candidate is announced")
        vp.check(k + 1 == iters or not calls or calls[0][0] is current or idle == restart,
                 "the current solution is announced")
    vp.check(not body, "nothing else is announced")
    vp.check(res.best is best, "the result is the last best announced")
    vp.cover("end")


def stats_match(vp, iters, exhaustive):
    rec = []

    def make(m):
        class Log(m.IteratedLocalSearchCallbacks):
            def on_iteration(self, current, candidate, best, cost_evaluator):
                rec.append((current, candidate, best, cost_evaluator.k))

        return Log()

    m, algo, init, pm, search, stop = setup(vp, iters, exhaustive=exhaustive, callbacks=make)
    res = algo.run(stop, collect_stats=True, display=False)
    data = list(res.stats)
    vp.check(len(data) == iters == res.stats.num_iterations == len(res.stats.runtimes), "one record per iteration")
    for d, (cur, cand, best, k) in zip(data, rec):
        vp.check(both(d.current_cost == cur.penalised(k), d.candidate_cost == cand.penalised(k),
                      d.best_cost == best.penalised(k)), "the recorded costs")
        vp.check(both(d.current_feas == cur.feas, d.candidate_feas == cand.feas, d.best_feas == best.feas),
                 "the recorded feasibility")
    vp.cover("end")


def best_0(vp): result_is_best(vp, 0, True)
def best_2(vp): result_is_best(vp, 2, False)
def best_3(vp): result_is_best(vp, 3, False)
def best_5(vp): result_is_best(vp, 5, False)
def best_1x(vp): result_is_best(vp, 1, True)
def best_2x(vp): result_is_best(vp, 2, True)
def best_3x(vp): result_is_best(vp, 3, True)
def best_4x(vp): result_is_best(vp, 4, True)
def best_quiet(vp): result_is_best(vp, 3, True, collect=False)
def stop_3(vp): stopping(vp, 3, False)
def stop_3x(vp): stopping(vp, 3, True)
def accept_1(vp): acceptance(vp, 4, 1, 100)
def accept_2(vp): acceptance(vp, 4, 2, 100)
def accept_25(vp): acceptance(vp, 5, 2, 100)
def accept_3(vp): acceptance(vp, 5, 3, 100)
def accept_restart(vp): acceptance(vp, 4, 2, 2)
def accept_restart4(vp): acceptance(vp, 4, 2, 1)
def accept_restart1(vp): acceptance(vp, 5, 2, 1)
def accept_restart3(vp): acceptance(vp, 6, 1, 3)
def calls_3(vp): callbacks(vp, 3, False, 100)
def calls_3x(vp): callbacks(vp, 3, True, 100)
def calls_restart(vp): callbacks(vp, 4, True, 2)
def calls_restart1(vp): callbacks(vp, 4, False, 1)
def stats_2(vp): stats_match(vp, 2, True)
def stats_3(vp): stats_match(vp, 3, True)


def solve_wiring(vp):
    """solve() starts from the given solution, or else from an improved random one, and returns
    what the iterated local search returns."""
    log = []

    class Ls(load.Model):
        def __init__(self, data, neighbours, perturbation_manager):
            self.data, self.neighbours, self.perturb, self.ops = data, neighbours, perturbation_manager, []

        def add_operator(self, op):
            self.ops.append(op)

        def shuffle(self, rng):
            log.append(("shuffle", rng.seed))

        def __call__(self, solution, cost_evaluator, exhaustive=False):
            new = Sol(vp, f"found{len(log)}")
            log.append(("search", solution, cost_evaluator.args, exhaustive, new, [o.kind for o in self.ops], self))
            return new

    class Rng(load.Model):
        def __init__(self, seed):
            self.seed = seed

    class Solution:
        @staticmethod
        def make_random(data, rng):
            s = Sol(vp, "random")
            log.append(("random", rng.seed, s))
            return s

    class Ce(load.Model):
        k = 0

        def __init__(self, load_penalties, tw_penalty, dist_penalty):
            self.args = ([*load_penalties], tw_penalty, dist_penalty)

        cost, penalised_cost = Evaluator.cost, Evaluator.penalised_cost

    class Data(load.Model):
        num_load_dimensions = 1

    class Dummy(load.Model):
        def __init__(self, *a, **k):
            self.a = (*a, *k.values())

    def neighbours(data, params=None):
        log.append(("neighbours", data, params))
        return {}

    def op(kind, supported):
        class Op(load.Model):
            @staticmethod
            def supports(data):
                return supported

            def __init__(self, data):
                self.kind = kind

        return Op

    Sol.time_warp = Sol.excess_distance = lambda self: 0
    Sol.excess_load = lambda self: [0]
    load.fresh(
        core={"RandomNumberGenerator": Rng, "Solution": Solution, "CostEvaluator": Ce},
        search={"LocalSearch": Ls, "PerturbationManager": Dummy, "PerturbationParams": Dummy,
                "NeighbourhoodParams": Dummy, "compute_neighbours": neighbours},
    )
    m = load.get("pyvrp.solve")
    il = load.get("pyvrp.IteratedLocalSearch")
    pen = load.get("pyvrp.PenaltyManager").PenaltyParams(max_penalty=64.0, min_penalty=2.0)
    sup = [bool(vp.choose(f"supported_{i}", 2)) for i in range(2)]
    near, shake = Dummy(), Dummy()
    params = m.SolveParams(ils=il.IteratedLocalSearchParams(exhaustive_on_best=False), penalty=pen,
                           neighbourhood=near, perturbation=shake,
                           operators=[op(i, sup[i]) for i in range(2)])
    given = Sol(vp, "given") if vp.choose("warm", 2) else None
    stop = Stop(2)
    data = Data()
    res = m.solve(data, stop, seed=vp.choose("seed", 2) + 5, collect_stats=bool(vp.choose("collect", 2)), params=params,
                  initial_solution=given)
    searches = [e for e in log if e[0] == "search"]
    randoms = [e for e in log if e[0] == "random"]
    vp.check(len({e[1] for e in log if e[0] in ("random", "shuffle")}) <= 1, "one random stream")
    seed = [e[1] for e in log if e[0] == "shuffle"][0]
    vp.check(vp.concrete_run or seed in (5, 6), "the seed given")
    ns = [e for e in log if e[0] == "neighbours"]
    vp.check(len(ns) == 1 and ns[0][1] is data and ns[0][2] is near, "neighbourhoods as the parameters say")
    for e in searches:
        vp.check(e[6].data is data and e[6].perturb.a[:1] == (shake,), "perturbation as the parameters say")
        vp.check(e[5] == [i for i in range(2) if sup[i]], "exactly the supported operators are used")
    if given is None:
        vp.check(len(randoms) == 1 and searches[0][1] is randoms[0][2] and searches[0][3] is True,
                 "a random solution is improved exhaustively")
        vp.check(searches[0][2] == ([64.0], 64.0, 64.0), "with the largest penalties")
        start = searches.pop(0)[4]
    else:
        vp.check(not randoms, "the given solution is used")
        start = given
    vp.check(searches[0][1] is start, "the search starts there")
    vp.check(searches[0][2] == ([33.0], 33.0, 33.0), "with penalties halfway")
    vp.check(len(searches) == 2 == res.num_iterations, "as long as not stopped")
    vp.check(cost(res.best) == best_of([start] + [e[4] for e in searches]), "the best solution seen is returned")
    vp.cover("end")


def report(vp):
    """A result's cost and feasibility are those of its best solution."""
    class Ce(load.Model):
        def __init__(self, load_penalties, tw_penalty, dist_penalty):
            self.args = ([*load_penalties], tw_penalty, dist_penalty)

        cost = Evaluator.cost

    load.fresh(core={"CostEvaluator": Ce})
    m = load.get("pyvrp.Result")
    st = load.get("pyvrp.Statistics").Statistics()
    best = Sol(vp, "best")
    n, t = vp.int("iterations", -5, 10**9), vp.real("runtime", -5.0, 1e6)
    try:
        r = m.Result(best, st, n, t)
    except ValueError:
        vp.check(either(n < 0, t < 0), "valid results are accepted")
        vp.cover("rejected")
        return
    vp.check(both(n >= 0, t >= 0), "negative iterations and runtimes are rejected")
    vp.check(r.best is best and r.stats is st and r.num_iterations is n and r.runtime is t, "the result's parts")
    vp.check(r.is_feasible() == best.feas, "feasible if the best solution is")
    c = r.cost()
    if best.feas:
        vp.check(c == best.obj, "the cost is that of the best solution")
    else:
        vp.check(c == float("inf"), "the cost is infinite if infeasible")
    vp.cover("end")
