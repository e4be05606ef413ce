"""Penalty management: symbolic initial penalties and violations."""

import statistics
import warnings

import load
import sym
from sym import both, either, ite, negate

REAL_FMEAN = statistics.fmean


def fmean(data, *a):
    """Model of statistics.fmean: exact for symbolic values."""
    data = list(data)
    out = []
    for v in data:
        out.append(float(bool(v)) if isinstance(v, sym.SymBool) else v)
    if any(isinstance(v, sym.Sym) for v in out):
        return sum(out, 0) / len(out)
    return REAL_FMEAN(out, *a)


class Evaluator(load.Model):
    def __init__(self, load_penalties, tw_penalty, dist_penalty):
        self.args = ([*load_penalties], tw_penalty, dist_penalty)


class Sol(load.Model):
    def __init__(self, loads, tw, dist):
        self.v = (loads, tw, dist)

    def excess_load(self):
        return list(self.v[0])

    def time_warp(self):
        return self.v[1]

    def excess_distance(self):
        return self.v[2]


def module():
    statistics.fmean = fmean
    load.fresh(core={"CostEvaluator": Evaluator})
    m = load.get("pyvrp.PenaltyManager")
    load.sym_builtins(m)
    load.patch(m, np=load.Numpy(), float=load.sym_float)
    return m


def clip(v, lo, hi):
    return ite(v < lo, lo, ite(v > hi, hi, v))


def same(vp, got, want, msg):
    vp.check(len(got[0]) == len(want) - 2, msg)
    for g, w in zip([*got[0], got[1], got[2]], want):
        vp.check(g == w, msg)


PARAMS = [
    # between, increase, decrease, target, tolerance, min, max
    (1, 1.5, 0.5, 0.5, 0.25, 0.5, 1024.0),
    (2, 2.0, 0.75, 0.5, 0.25, 0.0, 1000.0),
    (2, 1.25, 0.5, 0.75, 0.25, 1.0, 8.0),
    (4, 1.5, 0.5, 0.5, 0.125, 0.25, 64.0),
    (4, 2.0, 1.0, 0.75, 0.5, 1.0, 64.0),
    (2, 1.0, 0.0, 0.25, 0.0, 2.0, 2.0),
    (1, 1.5, 0.75, 0.5, 0.25, 1, 100),
]


def manage(vp, which, dims, regs, sizes=True, active=None, given=None):
    between, inc, dec, target, tol, lo, hi = PARAMS[which]
    m = module()
    p = m.PenaltyParams(between, inc, dec, target, tol, lo, hi)
    n = dims + 2
    names = [f"load{d}" for d in range(dims)] + ["duration", "distance"]
    active = list(range(n)) if active is None else active
    act = [vp.choose("dimension", n)] if active == "one" else active
    # The other dimensions get fixed values, so that mixing them up shows.
    if given is None:
        init = [vp.real(f"initial_{x}", 0.0, 1e6) if i in act else 2.0 + i for i, x in enumerate(names)]
    else:
        init = [given[(vp.choose(f"initial_{x}", len(given)) + i) % len(given)] if i in act else given[i % len(given)] for i, x in enumerate(names)]
    pm = m.PenaltyManager((init[:dims], init[dims], init[dims + 1]), p)
    pen = [clip(v, lo, hi) for v in init]
    counts = [0] * n
    feas = [0] * n
    total = [0] * n
    prev = [None] * n
    same(vp, pm.penalties(), pen, "initial penalties are those given, within the limits")
    for k in range(regs):
        if sizes:
            viol = [vp.int(f"violation_{x}_{k}", 0, 10**9) if i in act else (i + k) % 2 for i, x in enumerate(names)]
        else:
            viol = [ite(vp.bool(f"feasible_{x}_{k}"), 0, 1) if i in act else (i + k) % 3 for i, x in enumerate(names)]
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            pm.register(Sol(viol[:dims], viol[dims], viol[dims + 1]))
        warned = False
        for i in range(n):
            counts[i] += 1
            feas[i] = feas[i] + ite(viol[i] == 0, 1, 0)
            total[i] = total[i] + viol[i]
            if counts[i] == between:
                share = feas[i] / between
                few, many = target - share >= tol, share - target >= tol
                up = ite(few if tol else target > share, True, False)
                down = ite(many, True, False)
                stuck = False
                if prev[i] is None:
                    pass
                else:
                    stuck = total[i] >= prev[i]
                warned = either(warned, both(pen[i] >= hi, few, stuck))
                prev[i] = total[i]
                pen[i] = ite(up, clip(pen[i] * inc, lo, hi), ite(down, clip(pen[i] * dec, lo, hi), pen[i]))
                counts[i], feas[i], total[i] = 0, 0, 0
        same(vp, pm.penalties(), pen, "penalties follow the share of feasible solutions registered")
        for v in pen:
            vp.check(both(v >= lo, v <= hi), "penalties stay within the limits")
        vp.check(bool(ws) == warned, "a warning exactly when a penalty at its maximum does not help")
        vp.check(all(issubclass(w.category, load.get("pyvrp.exceptions").PenaltyBoundWarning) for w in ws), "the warning's type")
    same(vp, pm.cost_evaluator().args, pen, "the cost evaluator uses the current penalties")
    same(vp, pm.max_cost_evaluator().args, [hi] * n, "the maximum cost evaluator uses the largest penalty")
    same(vp, pm.penalties(), pen, "evaluators do not change the penalties")
    vp.cover("end")


def params(vp):
    m = module()
    n = vp.int("between", -3, 10**6)
    inc, dec = vp.real("increase", -2.0, 5.0), vp.real("decrease", -2.0, 5.0)
    tgt, tol = vp.real("target", -2.0, 2.0), vp.real("tolerance", -2.0, 2.0)
    lo, hi = vp.real("min", -2.0, 1e6), vp.real("max", -2.0, 1e6)
    valid = both(n >= 1, inc >= 1, dec >= 0, dec <= 1, tgt >= 0, tgt <= 1, tol >= 0, tol <= 1, lo >= 0, hi >= lo)
    try:
        p = m.PenaltyParams(n, inc, dec, tgt, tol, lo, hi)
    except ValueError:
        vp.check(negate(valid), "valid parameters are accepted")
        vp.cover("rejected")
        return
    vp.check(valid, "invalid parameters are rejected")

    class Data(load.Model):
        num_load_dimensions = 2

    loads, dur, dist = p.midpoint_penalties(Data())
    mid = (lo + hi) / 2
    vp.check(len(loads) == 2 and both(loads[0] == mid, loads[1] == mid, dur == mid, dist == mid) if not vp.concrete_run
             else len(loads) == 2 and max(abs(x - mid) for x in (*loads, dur, dist)) <= 1e-9 * (1 + abs(hi)),
             "initial penalties lie halfway")
    vp.cover("end")


def each(which, regs, dims, sizes=True):
    return lambda vp: manage(vp, which, dims, regs, sizes, "one")


one_0 = each(0, 3, 1)
one_1 = each(1, 4, 0)
one_2 = each(2, 4, 2)
one_3 = each(3, 4, 1, False)
one_4 = each(4, 8, 0, False)
one_5 = each(5, 4, 1)
one_6 = each(2, 6, 0)


def all_2(vp): manage(vp, 1, 0, 2)
def all_1(vp): manage(vp, 0, 1, 1)
def all_4(vp): manage(vp, 3, 0, 4, sizes=False)
def all_5(vp): manage(vp, 5, 0, 4)


# Limits and initial penalties that happen to be whole numbers.
def whole_1(vp): manage(vp, 6, 1, 3, False, "one", (1, 5, 100, 0))
def whole_0(vp): manage(vp, 6, 0, 4, False, "one", (1, 7, 3))
