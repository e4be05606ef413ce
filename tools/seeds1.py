from mkseed import mkseed
CPP="pyvrp/cpp/"; S=CPP+"search/"


mkseed("group-optional","P03",[(CPP+"Solution.cpp","        if (count > 1)\n","        if (group.required && count > 1)\n")],
 "an optional group of which two members are visited","a solution visiting two members of a mutually exclusive group is accepted",
'''
from common import *
m = np.zeros((3, 3), dtype=int)
for req in (True, False):
    data = ProblemData([Location(0, 0)] * 3, [Client(1, required=False, group=0), Client(2, required=False, group=0)], [Depot(0)],
                       [VehicleType(2)], [m], [m], groups=[ClientGroup([0, 1], required=req)])
    try:
        Solution(data, [[0], [1]])
    except RuntimeError:
        continue
    die("two visited members of one group accepted")
''')

mkseed("load-rounding","P05",[(CPP+"CostEvaluator.h","    Cost cost = 0;\n    for (size_t dim = 0; dim != loadPenalties_.size(); ++dim)\n        cost += loadPenalties_[dim] * excessLoads[dim].get();\n\n    return cost;","    double cost = 0;\n    for (size_t dim = 0; dim != loadPenalties_.size(); ++dim)\n        cost += loadPenalties_[dim] * excessLoads[dim].get();\n\n    return static_cast<Cost>(cost);")],
 "fractional penalties in two or more load dimensions","the penalised cost is rounded over all dimensions together, and differs from the documented terms",
'''
from common import *
m = np.zeros((2, 2), dtype=int)
for a in range(6):
    for b in range(6):
        data = ProblemData([Location(0, 0)] * 2, [Client(1, delivery=[a, b])], [Depot(0)], [VehicleType(1, [0, 0])], [m], [m])
        s = Solution(data, [[0]])
        got = CostEvaluator([1.5, 2.5], 1, 1).penalised_cost(s)
        if got != int(1.5 * a) + int(2.5 * b):
            die(f"{a} {b}: {got}")
''')

mkseed("swap-trip","P09",[(S+"Route.cpp","    std::swap(first->trip_, second->trip_);\n","    if (first->route_ && second->route_)  // unassigned nodes have no trip\n        std::swap(first->trip_, second->trip_);\n")],
 "an unassigned node swapped into a later trip of a route","a visit's trip number is wrong after swapping it in, so later moves are evaluated in the wrong trip",
'''
from common import *
m = np.zeros((4, 4), dtype=int)
data = ProblemData([Location(0, 0)] * 4, [Client(1, required=False), Client(2, required=False), Client(3, required=False)], [Depot(0)],
                   [VehicleType(1, reload_depots=[0], max_reloads=2)], [m], [m])
ss = S.Solution(data)
ss.load(solution(data, [(0, [C(0), D(0), C(1)])]))
S.Route.swap(ss.clients[1], ss.clients[2])
ss.routes[0].update()
if ss.clients[2].trip != 1 or ss.clients[1].trip != 0:
    die(f"trips {ss.clients[2].trip} {ss.clients[1].trip}")
''')
mkseed("relocate-cache","P10",[(S+"Relocate.h","        if (node->isPickup())\n            hasCachedRemoveCost_[data.numClients() + node->idx()] = false;","        if (node->isPickup() && N > 2)\n            hasCachedRemoveCost_[data.numClients() + node->idx()] = false;")],
 "a segment starting at a pickup is evaluated, its route changes, and it is evaluated again","the cost of removing the segment is stale, so the evaluated and actual cost change differ",
'''
from common import *
from lsdemo import local_optimum
local_optimum(["Relocate1", "Relocate2", "SwapTails"], rounds=3000, nc=3, ns=2, windows=False, release=False, reload=False)
''')


mkseed("pickup-first","P12",[(S+"RelocatePickup.cpp","        if (node == U || p(node) == U)\n            continue;","        if (node == U || p(node) == U)\n            continue;\n\n        if (p(node)->isReloadDepot())\n            break;  // trip starts here")],
 "a pickup on a later trip whose best position is directly after the reload depot","an improving position for the pickup, first in its trip, is never found",
'''
from common import *
n = 4
m = np.array([[0, 1, 9, 9], [1, 0, 1, 9], [9, 9, 0, 1], [1, 9, 1, 0]])
# depot 0, pickup 1, client 2, delivery 3; best second trip: pickup, client, delivery
data = ProblemData([Location(0, 0)] * n, [Client(2), Client(0)], [Depot(0)], [VehicleType(1, reload_depots=[0], max_reloads=2)], [m], [m],
                   shipments=[Shipment(1, 3)])
for acts in ([C(0), P(0), L(0)], [C(1), D(0), C(0), P(0), L(0)]):
    ss = S.Solution(data)
    ss.load(solution(data, [(0, acts)]))
    op = S.RelocatePickup(data)
    op.init(ss)
    delta, ok = op.evaluate(ss.shipments[0][0], CostEvaluator([], 1, 1))
    if not ok or delta >= 0:
        die(f"improving position overlooked {delta}")
''')
mkseed("depot-trips","P13",[(S+"RelocateWithDepot.cpp","    if (vRoute->numTrips() == vRoute->maxTrips())","    if (uRoute == vRoute && vRoute->numTrips() == vRoute->maxTrips())")],
 "a client moved between routes into one that has used all its trips","a move is proposed that exceeds the trip limit of the receiving vehicle; applying it fails",
'''
from common import *
m = np.array([[0, 1, 9], [1, 0, 9], [9, 9, 0]])
data = ProblemData([Location(0, 0)] * 3, [Client(1, delivery=[5]), Client(1, delivery=[5])], [Depot(0)],
                   [VehicleType(1, [5], reload_depots=[0], max_reloads=0), VehicleType(1, [5], fixed_cost=100)], [m], [m])
data2 = data.replace(vehicle_types=[VehicleType(1, [5], reload_depots=[0], max_reloads=1), VehicleType(1, [5], fixed_cost=100)])
assert S.RelocateWithDepot.supports(data2)
ss = S.Solution(data)
ss.load(solution(data, [(0, [C(0)]), (1, [C(1)])]))
op = S.RelocateWithDepot(data)
op.init(ss)
ce = CostEvaluator([20], 1, 1)
delta, ok = op.evaluate(ss.clients[1], ss.clients[0], ce)
if ok:
    die("a move that exceeds the trip limit is proposed")
''')
mkseed("load-compare","P14",[(S+"Solution.cpp","        if (search[idx++]->activity() != activity)","        if (search[idx++]->idx() != activity.idx())")],
 "loading a solution whose route visits client i where the previously loaded one visited a shipment's step i, with the same distance and duration",
 "the search keeps the route of the earlier solution, and returns other visits than those loaded",
'''
from common import *
m = np.zeros((5, 5), dtype=int)
data = ProblemData([Location(0, 0)] * 5, [Client(1), Client(2)], [Depot(0)], [VehicleType(2)], [m], [m], shipments=[Shipment(3, 4)])
first = solution(data, [(0, [P(0), C(1), L(0)]), (0, [C(0)])])
second = solution(data, [(0, [P(0), L(0), C(1)]), (0, [C(0)])])
third = solution(data, [(0, [C(0), C(1)]), (0, [P(0), L(0)])])
fourth = solution(data, [(0, [C(0)]), (0, [C(1)])])
fifth = solution(data, [(0, [P(0), C(1), C(0), L(0)])])
sixth = solution(data, [(0, [C(0), C(1), P(0), L(0)])])
ss = S.Solution(data)
sols = [first, second, third, fourth, fifth, sixth]
for a in sols:
    for b in sols:
        ss.load(a)
        ss.load(b)
        got = ss.unload()
        if got != b:
            die(f"loaded {b}, unloaded {got}")
''')



mkseed("reload-release","P01",[(CPP+"Route.cpp","                   std::max(depot.twEarly, std::min(releaseTime, depot.twLate)),\n                   depot.twLate,","                   std::max(depot.twEarly, releaseTime),\n                   depot.twLate,")],
 "a reload depot that closes before the release time of the next trip","the schedule waits at a closed reload depot instead of showing time warp, and no longer ends at the route's end time",
'''
from common import *
rnd = random.Random(7)
for _ in range(2000):
    m = np.array([[0, 5, 5], [5, 0, 5], [5, 5, 0]])
    data = ProblemData([Location(0, 0)] * 3, [Client(1), Client(2, release_time=rnd.randint(0, 40), tw_late=1000)],
                       [Depot(0), Depot(0, tw_late=rnd.randint(0, 30))], [VehicleType(start_late=rnd.randint(0, 20), tw_late=1000, reload_depots=[1], max_reloads=1)], [m], [m])
    r = Route(data, [C(0), D(1), C(1)], 0)
    if r.schedule()[-1].end_time != r.end_time():
        die(f"schedule ends at {r.schedule()[-1].end_time}, route at {r.end_time()}")
''')
mkseed("required-prize","P02",[(CPP+"Route.cpp","            prizes_ += data.shipment(activity.idx()).prize;","            auto const &shipment = data.shipment(activity.idx());\n            prizes_ += shipment.required ? 0 : shipment.prize;")],
 "a required shipment with a prize","the prize of a visited required shipment is not collected",
'''
from common import *
m = np.zeros((3, 3), dtype=int)
for req in (False, True):
    data = ProblemData([Location(0, 0)] * 3, [], [Depot(0)], [VehicleType()], [m], [m], shipments=[Shipment(1, 2, prize=7, required=req)])
    r = Route(data, [P(0), L(0)], 0)
    if r.prizes() != 7 or solution(data, [(0, [P(0), L(0)])]).uncollected_prizes() != 0:
        die("prize not collected")
''')
mkseed("unplanned-group","P04",[(CPP+"Solution.cpp","            unplanned_.emplace_back(Activity::ActivityType::CLIENT, client);","            if (!clientData.group || !data.group(*clientData.group).required)\n                unplanned_.emplace_back(Activity::ActivityType::CLIENT, client);")],
 "a required group of clients","members of a required group that are not visited are missing from the unplanned activities",
'''
from common import *
m = np.zeros((3, 3), dtype=int)
for req in (True, False):
    data = ProblemData([Location(0, 0)] * 3, [Client(1, required=False, group=0), Client(2, required=False, group=0)], [Depot(0)],
                       [VehicleType(2)], [m], [m], groups=[ClientGroup([0, 1], required=req)])
    if len(Solution(data, [[0]]).unplanned()) != 1 or len(Solution(data, []).unplanned()) != 2:
        die("unplanned activities are incomplete")
''')
mkseed("hash-order","P06",[(CPP+"Solution.h","        size_t hash = sol.numRoutes();","        size_t hash = sol.numRoutes();\n        for (auto const &route : sol.routes())\n            hash = hash * 257 + route.size();")],
 "the same routes listed in another order","equal solutions have different hashes",
'''
from common import *
m = np.zeros((4, 4), dtype=int)
data = ProblemData([Location(0, 0)] * 4, [Client(1), Client(2), Client(3)], [Depot(0)], [VehicleType(2)], [m], [m])
a, b = Solution(data, [[0, 1], [2]]), Solution(data, [[2], [0, 1]])
if a != b or hash(a) != hash(b):
    die("equal solutions with different hashes")
''')
mkseed("delta-flags","P10",[(CPP+"CostEvaluator.h","    if (vRoute->hasDurationCost())\n    {\n        auto const [cost, timeWarp] = vProposal.duration();","    if (uRoute->hasDurationCost() && vRoute->hasDurationCost())\n    {\n        auto const [cost, timeWarp] = vProposal.duration();")],
 "two vehicle types of which the first has no duration cost or limit","the evaluated cost change of a swap or tail exchange lacks the duration of the second route",
'''
from ops import *
check_operators(["Swap11", "Swap21", "SwapTails"], rounds=20000, nc=4, ns=0, windows=False, release=False, unlimited=0.6)
''')
mkseed("remove-last","P11",[(S+"RemoveOptionalClient.cpp","    if (route->numShipments() == 0 && route->numClients() == 1)","    if (route->numClients() == 1)")],
 "an optional client that is the only client in a route with a shipment","removing it is evaluated as emptying the whole route",
'''
from ops import *
check_operators(["RemoveOptionalClient"], rounds=4000, nc=2, ns=1)
''')





mkseed("update-same","P16",[(S+"LocalSearch.cpp","    if (U != V)\n        update(V);","    if (U != V && !V->empty())\n        update(V);")],
 "a move that takes the last client out of a neighbouring route, which still holds a reload depot",
 "the emptied route keeps stale figures and lingering depots, which count in the cost of later moves",
'''
from common import *
from lsdemo import local_optimum
local_optimum(["Relocate1", "Swap11", "SwapTails", "RelocateWithDepot"], rounds=3000, nc=4, ns=0, windows=False, release=False)
''')
mkseed("perturb-mark","P15",[(S+"PerturbationManager.cpp","                             : solution.clients.size() + node->idx();","                             : perturbed.size() - solution.clients.size() + node->idx();")],
 "an instance with a different number of clients and shipments","a shipment and a client share a mark, or a mark lies outside the set, so fewer or other visits than configured change",
'''
from common import *
from pyvrp.search import PerturbationManager, PerturbationParams
m = np.ones((8, 8), dtype=int) - np.eye(8, dtype=int)
data = ProblemData([Location(0, 0)] * 8, [Client(i + 1, required=False) for i in range(3)], [Depot(0)], [VehicleType(3)], [m], [m],
                   shipments=[Shipment(4, 5, required=False)])
nodes = [C(0), C(1), C(2), P(0), L(0)]
nb = {u: [v for v in nodes if v != u and not (u.is_pickup() and v.is_delivery())] for u in nodes if not u.is_delivery()}
ls = S.SearchSpace(data, nb)
for seed in range(40):
    for k in range(1, 5):
        ss = S.Solution(data)
        pm = PerturbationManager(PerturbationParams(k, k))
        rng = RandomNumberGenerator(seed)
        ls.shuffle(rng)
        pm.shuffle(rng)
        pm.perturb(ss, ls, CostEvaluator([], 1, 1))
        s = ss.unload()
        if s.num_clients() + s.num_shipments() != k:
            die(f"{k} changes asked for, {s.num_clients() + s.num_shipments()} made")
''')
mkseed("start-flag","P10",[(CPP+"ProblemData.cpp","        return hasTw || arg.startLate != std::numeric_limits<Duration>::max();","        return hasTw || (arg.startLate != std::numeric_limits<Duration>::max() && arg.shiftDuration != std::numeric_limits<Duration>::max());")],
 "no time windows or duration costs at all, except a latest start time and release times","evaluated cost changes ignore the time warp of starting too late",
'''
from common import *
m = np.array([[0, 5, 5], [5, 0, 5], [5, 5, 0]])
rnd = random.Random(1)
for _ in range(300):
    data = ProblemData([Location(0, 0)] * 3, [Client(1, release_time=rnd.randint(0, 50)), Client(2, release_time=rnd.randint(0, 50))], [Depot(0)],
                       [VehicleType(2, start_late=rnd.randint(0, 40))], [m], [m])
    ss = S.Solution(data)
    ce = CostEvaluator([], 100, 1)
    ss.load(Solution(data, [[0], [1]]))
    before = ce.penalised_cost(ss.unload())
    op = S.Relocate1(data)
    op.init(ss)
    delta, ok = op.evaluate(ss.clients[1], ss.clients[0], ce)
    if not ok:
        continue
    op.apply(ss.clients[1], ss.clients[0])
    for r in ss.routes:
        r.update()
    after = ce.penalised_cost(ss.unload())
    if after - before != delta:
        die(f"evaluated {delta}, actual {after - before}")
''')
