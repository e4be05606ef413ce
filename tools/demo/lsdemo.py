"""Runs the local search on random small instances and looks for improving moves it left."""
from common import *
from pyvrp.search import PerturbationManager, PerturbationParams


def local_optimum(names, rounds=2000, seed=1, **kw):
    rnd = random.Random(seed)
    for k in range(rounds):
        data = instance(rnd, **kw)
        nodes = [C(i) for i in range(data.num_clients)]
        for i in range(data.num_shipments):
            nodes += [P(i), L(i)]
        nb = {u: [v for v in nodes if v != u and not (u.is_pickup() and v == L(u.idx))] for u in nodes if not u.is_delivery()}
        ls = S.LocalSearch(data, nb, PerturbationManager(PerturbationParams(0, 0)))
        ops = [getattr(S, n)(data) for n in names if getattr(S, n).supports(data)]
        for op in ops:
            ls.add_operator(op)
        ce = CostEvaluator([3] * data.num_load_dimensions, 4, 5)
        start = solution(data, plan(data, rnd, leave=0))
        if not start.is_complete():
            continue
        out = ls(start, ce, True)
        before, after = ce.penalised_cost(start), ce.penalised_cost(out)
        if after > before:
            die(f"cost increased from {before} to {after}")
        ss = S.Solution(data)
        ss.load(out)
        for n in names:
            cls = getattr(S, n)
            if not cls.supports(data):
                continue
            op = cls(data)
            op.init(ss)
            for u in nb:
                U = ss.clients[u.idx] if u.is_client() else ss.shipments[u.idx][0]
                if issubclass(cls, S.UnaryOperator):
                    if op.evaluate(U, ce)[1]:
                        die(f"{n} of {u} still improves {out}")
                    continue
                for v in nb[u]:
                    V = ss.clients[v.idx] if v.is_client() else ss.shipments[v.idx][v.is_delivery()]
                    if V.route is None:
                        continue
                    for W in [V] + ([V.route[0]] if V.pos == 1 else []):
                        delta, ok = op.evaluate(U, W, ce)
                        if ok:
                            die(f"round {k}: {n} of {u} and {v} still improves {out} by {delta}")
