"""Applies search operators at random and compares evaluated and actual cost changes."""
from common import *


def check_operators(names, rounds=3000, seed=1, pens=(([3, 2], 4, 5),), **kw):
    rnd = random.Random(seed)
    applied = 0
    for _ in range(rounds):
        data = instance(rnd, **kw)
        sol = solution(data, plan(data, rnd))
        ce = CostEvaluator(pens[0][0][: data.num_load_dimensions], pens[0][1], pens[0][2])
        for name in names:
            cls = getattr(S, name)
            if not cls.supports(data):
                continue
            ss = S.Solution(data)
            ss.load(sol)
            op = cls(data)
            if hasattr(op, "init"):
                op.init(ss)
            nodes = list(ss.clients) + [x for p in ss.shipments for x in p]
            U = rnd.choice(nodes)
            text = [str(r) for r in ss.routes]
            before = ce.penalised_cost(ss.unload())
            if issubclass(cls, S.UnaryOperator):
                delta, ok = op.evaluate(U, ce)
                if not ok:
                    continue
                op.apply(U)
            else:
                V = rnd.choice([x for x in nodes if x.route is not None and x is not U] + [r[0] for r in ss.routes])
                if V is U or (U.is_delivery()):
                    continue
                delta, ok = op.evaluate(U, V, ce)
                if not ok:
                    continue
                op.apply(U, V)
            for r in ss.routes:
                r.update()
                if r.num_clients() + r.num_shipments() == 0:
                    r.clear()
            after = ce.penalised_cost(ss.unload())
            applied += 1
            if after - before != delta:
                die(f"{name}: evaluated {delta}, actual {after - before}; {text} became {[str(r) for r in ss.routes]}")
    print("moves applied:", applied)
