from mkseed import mkseed
CPP="pyvrp/cpp/"; S=CPP+"search/"
mkseed("empty-types","P16",[(S+"LocalSearch.cpp","        if (empty != end && applyBinaryOps(U, (*empty)[0], costEvaluator))\n            break;","        if (empty == end)\n            break;\n\n        if (applyBinaryOps(U, (*empty)[0], costEvaluator))\n            break;")],
 "all vehicles of one type in use, and an improving move to an empty vehicle of another type","empty vehicles of later types are never tried once a type is used up, so improving moves are missed",
'''
from common import *
from pyvrp.search import PerturbationManager, PerturbationParams
m = np.array([[0, 1, 1, 5], [1, 0, 50, 50], [1, 50, 0, 50], [5, 50, 50, 0]])
data = ProblemData([Location(0, 0)] * 4, [Client(1), Client(2)], [Depot(0)], [VehicleType(1), VehicleType(1)], [m], [m])
nb = {C(0): [C(1)], C(1): [C(0)]}
for seed in range(20):
    for vt in (0, 1):
        ls = S.LocalSearch(data, nb, PerturbationManager(PerturbationParams(0, 0)))
        op = S.Relocate1(data)
        ls.add_operator(op)
        ls.shuffle(RandomNumberGenerator(seed))
        sol = ls(Solution(data, [Route(data, [0, 1], vt)]), CostEvaluator([], 1, 1), exhaustive=True)
        if sol.distance() != 4:
            die(f"improving move missed: {sol.distance()}")
''')
mkseed("penalty-edge","P22",[("pyvrp/PenaltyManager.py","        if abs(diff) < self._params.feas_tolerance:\n            return penalty","        if abs(diff) <= self._params.feas_tolerance:\n            return penalty")],
 "a share of feasible solutions exactly at the tolerance from the target","a penalty is not updated",
'''
from common import *
from pyvrp import PenaltyManager, PenaltyParams
m = np.zeros((2, 2), dtype=int)
data = ProblemData([Location(0, 0)] * 2, [Client(1)], [Depot(0)], [VehicleType()], [m], [m])
pm = PenaltyManager(([], 8.0, 8.0), PenaltyParams(solutions_between_updates=1, penalty_decrease=0.5, target_feasible=0.75, feas_tolerance=0.25))
pm.register(Solution(data, [[0]]))
if pm.penalties() != ([], 4.0, 4.0):
    die(str(pm.penalties()))
''')
mkseed("stale-penalties","P21",[("pyvrp/IteratedLocalSearch.py","        cost_eval = self._pm.cost_evaluator()\n        while not","        cost_eval = self._pm.cost_evaluator()\n        init_cost = cost_eval.penalised_cost(self._init)\n        while not"),
 ("pyvrp/IteratedLocalSearch.py","            late_cost = cost_eval.penalised_cost(self._init)\n            if (","            late_cost = init_cost\n            if (")],
 "an infeasible initial solution and penalties that change before the history is full","candidates are compared with a cost of the initial solution under old penalties",
'''
from common import *
from pyvrp import IteratedLocalSearch, IteratedLocalSearchParams, PenaltyManager, PenaltyParams
from pyvrp.stop import MaxIterations
m = np.array([[0, 5, 5], [5, 0, 1], [5, 1, 0]])
data = ProblemData([Location(0, 0)] * 3, [Client(1, delivery=[5]), Client(2, delivery=[5])], [Depot(0)], [VehicleType(2, [5])], [m], [m])
feas, infeas = Solution(data, [[0], [1]]), Solution(data, [[0, 1]])  # 20, and 11 with excess load 5
found = [infeas, feas, feas]
froms = []
class Search:
    def __call__(self, sol, cost_eval, exhaustive=False):
        froms.append(sol)
        return found[len(froms) - 1]
# Penalty 4 (cost 31 > 20) drops to 1 (cost 16 < 20) after the first, so the feasible
# solution is worse than both the initial and the current one in the second iteration.
pm = PenaltyManager(([4.0], 1, 1), PenaltyParams(solutions_between_updates=1, penalty_increase=1, penalty_decrease=0.25, target_feasible=0, feas_tolerance=0, min_penalty=0))
class PM:
    def __init__(self): self.n = 0
    def cost_evaluator(self): return CostEvaluator([4.0 if self.n == 0 else 1.0], 1, 1)
    def register(self, sol): self.n += 1
IteratedLocalSearch(data, PM(), Search(), infeas, IteratedLocalSearchParams(100, 3, False)).run(MaxIterations(3))
if froms[2] is feas:
    die("worse candidate accepted")
''')
mkseed("fleet-shipments","P23",[("pyvrp/minimise_fleet.py","        demand = max(delivery, pickup)\n","        shipment = sum(s.amount[dim] for s in data.shipments())\n        demand = max(delivery, pickup) + shipment\n")],
 "shipments, which are on board only for part of a trip","the lower bound exceeds the number of vehicles needed, so the fleet is not reduced to it",
'''
from common import *
from pyvrp.minimise_fleet import minimise_fleet
from pyvrp.stop import MaxIterations
n = 6
m = np.ones((n, n), dtype=int) - np.eye(n, dtype=int)
data = ProblemData([Location(0, 0)] * n, [Client(1, delivery=[0])], [Depot(0)], [VehicleType(2, [5])], [m], [m],
                   shipments=[Shipment(2, 3, amount=[5]), Shipment(4, 5, amount=[5])])
if minimise_fleet(data, MaxIterations(200)).num_available != 1:
    die("fleet not minimised")
''')
mkseed("bitset-pickle","P07",[(CPP+"bindings.cpp","                    blocks.push_back(block.to_ullong());\n                return","                    blocks.push_back(block.to_ullong());\n\n                // Blocks at the end without bits hold no information.\n                while (blocks.size() > 1 && blocks.back() == 0)\n                    blocks.pop_back();\n\n                return")],
 "a bit set of more than 64 bits without bits in its last block","a copied bit set is shorter than the original",
'''
from common import *
import pickle
from pyvrp._pyvrp import DynamicBitset
a = DynamicBitset(200)
a[3] = True
b = pickle.loads(pickle.dumps(a))
if len(a) != len(b) or a != b:
    die(f"{len(a)} {len(b)}")
''')
