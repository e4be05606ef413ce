"""Stopping criteria: symbolic limits, cost sequences and clocks."""

import load
from sym import both, either, ite, negate

INT_MAX = 2**63 - 1


def crit(name):
    load.fresh()
    return getattr(load.get("pyvrp.stop"), name)


def costs(vp, n):
    """Best costs as the search reports them: never increasing, INT_MAX while infeasible."""
    out = []
    for k in range(n):
        c = vp.int(f"cost_{k}", -(10**9), INT_MAX)
        if out:
            vp.assume(c <= out[-1])
        out.append(c)
    return out


def max_iterations(vp):
    C = crit("MaxIterations")
    n = vp.int("limit", -3, 10**6)
    try:
        c = C(n)
    except ValueError:
        vp.check(n < 0, "a limit is rejected only if negative")
        vp.cover("rejected")
        return
    vp.check(n >= 0, "negative limits are rejected")
    for k, cost in enumerate(costs(vp, 6)):
        got = c(cost)
        vp.check(got == (k + 1 > n), "stops exactly after that many iterations")
    vp.cover("end")


def no_improvement(vp, n=5, any_order=False):
    C = crit("NoImprovement")
    limit = vp.int("limit", -3, 10**6)
    try:
        c = C(limit)
    except ValueError:
        vp.check(limit < 0, "a limit is rejected only if negative")
        vp.cover("rejected")
        return
    vp.check(limit >= 0, "negative limits are rejected")
    seq = [vp.int(f"cost_{k}", -(10**9), INT_MAX) for k in range(n)] if any_order else costs(vp, n)
    best, since = None, 0
    for cost in seq:
        got = c(cost)
        if best is None or cost < best:
            best, since = cost, 0
        else:
            since += 1
        vp.check(got == (since >= limit), "stops exactly after that many iterations without improvement")
    vp.cover("end")


def no_improvement_any(vp):
    no_improvement(vp, 4, True)


def max_runtime(vp):
    C = crit("MaxRuntime")
    limit = vp.real("limit", -3.0, 1e6)
    start = vp.real("time_0", -1e6, 1e6)
    load.NOW[0] = start
    try:
        c = C(limit)
    except ValueError:
        vp.check(limit < 0, "a limit is rejected only if negative")
        vp.cover("rejected")
        return
    vp.check(limit >= 0, "negative limits are rejected")
    first = None
    for k in range(4):
        load.NOW[0] = load.NOW[0] + vp.real(f"passed_{k}", 0.0, 1e6)
        first = load.NOW[0] if first is None else first
        got = c(vp.int(f"cost_{k}", 0, INT_MAX))
        vp.check(got == (load.NOW[0] - first > limit), "stops exactly when that much time has passed since it was first asked")
    vp.cover("end")


def first_feasible(vp):
    C = crit("FirstFeasible")
    c = C()
    for k, cost in enumerate(costs(vp, 3)):
        vp.check(c(cost) == (cost < INT_MAX), "stops exactly when there is a feasible solution")
    vp.cover("end")


def multiple(vp):
    C = crit("MultipleCriteria")
    n = vp.choose("criteria", 4)
    calls = [[] for _ in range(n)]
    answers = [[vp.bool(f"stop_{i}_{k}") for k in range(3)] for i in range(n)]

    def make(i):
        def f(best_cost):
            calls[i].append(best_cost)
            return answers[i][len(calls[i]) - 1]

        return f

    try:
        c = C([make(i) for i in range(n)])
    except ValueError:
        vp.check(n == 0, "rejected only without criteria")
        vp.cover("rejected")
        return
    vp.check(n > 0, "no criteria are rejected")
    for k in range(3):
        cost = vp.int(f"cost_{k}", 0, INT_MAX)
        got = bool(c(cost))
        vp.check(got == either(*[answers[i][k] for i in range(n)]), "stops exactly when one of the criteria does")
        for i in range(n):
            vp.check(len(calls[i]) <= k + 1, "each criterion is asked at most once")
            if len(calls[i]) == k + 1:
                vp.check(calls[i][-1] == cost, "each criterion is asked with the best cost")
        if got:
            break
        vp.check(all(len(x) == k + 1 for x in calls), "all criteria are asked while none stops")
    vp.cover("end")


def combined(vp):
    """The real criteria together."""
    load.fresh()
    m = load.get("pyvrp.stop")
    n, k = vp.int("iterations", 0, 5), vp.int("idle", 0, 5)
    c = m.MultipleCriteria([m.MaxIterations(n), m.NoImprovement(k), m.FirstFeasible()])
    best, since = None, 0
    for i, cost in enumerate(costs(vp, 4)):
        got = bool(c(cost))
        if best is None or cost < best:
            best, since = cost, 0
        else:
            since += 1
        want = either(i + 1 > n, since >= k, cost < INT_MAX)
        vp.check(got == want, "stops exactly when one of the criteria does")
        if got:
            break
    vp.cover("end")
