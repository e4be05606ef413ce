from mkseed import mkseed
CPP="pyvrp/cpp/"; S=CPP+"search/"

mkseed("proximity-key","P26",[(S+"neighbourhood.cpp","    std::set<std::tuple<pyvrp::Cost, pyvrp::Cost, size_t>> seen = {};","    std::set<std::tuple<pyvrp::Cost, size_t>> seen = {};"),
 (S+"neighbourhood.cpp","""        auto const key = std::make_tuple(vehType.unitDistanceCost,
                                         vehType.unitDurationCost,
                                         vehType.profile);""","""        auto const key = std::make_tuple(vehType.unitDistanceCost
                                             + vehType.unitDurationCost,
                                         vehType.profile);""")],
 "two vehicle types of one profile whose distance and duration costs swap roles","the second type is ignored in the proximity of activities, so neighbours near by duration are missed",
'''
from common import *
from pyvrp.search import NeighbourhoodParams, compute_neighbours
n = 4
dist = np.array([[0, 5, 5, 5], [5, 0, 1, 9], [5, 1, 0, 9], [5, 9, 9, 0]])
dur = np.array([[0, 5, 5, 5], [5, 0, 9, 0], [5, 9, 0, 9], [5, 0, 9, 0]])
vts = [VehicleType(1, unit_distance_cost=1, unit_duration_cost=0), VehicleType(1, unit_distance_cost=0, unit_duration_cost=1)]
data = ProblemData([Location(0, 0)] * n, [Client(1), Client(2), Client(3)], [Depot(0)], vts, [dist], [dur])
got = compute_neighbours(data, NeighbourhoodParams(0.2, 1, False))[C(0)]
if list(got) != [C(2)]:
    die(f"nearest {got}")
''')

mkseed("proximity-delivery","P26",[(S+"neighbourhood.cpp","""                auto const &to = data.shipment(pick).pickup;
                prox(frm, idx) = std::min({cost(shipment.pickup, to),
                                           cost(shipment.delivery, to),
                                           prox(frm, idx)});""","""                auto const &to = data.shipment(pick).pickup;
                prox(frm, idx) = std::min({cost(shipment.pickup, to),
                                           cost(to, shipment.delivery),
                                           prox(frm, idx)});""")],
 "asymmetric distances between a delivery and another shipment's pickup, with asymmetric proximity","the neighbours of a shipment follow the arc in the wrong direction",
'''
from common import *
from pyvrp.search import NeighbourhoodParams, compute_neighbours
n = 7
m = np.full((n, n), 50)
np.fill_diagonal(m, 0)
m[2, 3] = 1  # delivery of the first shipment to pickup of the second
m[5, 2] = 2  # pickup of the third to delivery of the first: not an arc that counts
data = ProblemData([Location(0, 0)] * n, [], [Depot(0)], [VehicleType(1)], [m], [m], shipments=[Shipment(1, 2), Shipment(3, 4), Shipment(5, 6)])
got = compute_neighbours(data, NeighbourhoodParams(0, 1, False))[P(0)]
if list(got) != [P(1)]:
    die(f"nearest {got}")
''')

mkseed("random-spread","P25",[(CPP+"Solution.cpp","        = numActivities > numVehicles && numActivities % numVehicles != 0;","        = numActivities > numVehicles && numActivities % perVehicle != 0;")],
 "more activities than vehicles, not a multiple of the number of vehicles","random solutions need more routes than there are vehicles",
'''
from common import *
m = np.zeros((6, 6), dtype=int)
for nv in (2, 3, 4):
    data = ProblemData([Location(0, 0)] * 6, [Client(i) for i in range(1, 6)], [Depot(0)], [VehicleType(nv)], [m], [m])
    s = Solution.make_random(data, RandomNumberGenerator(1)) if hasattr(Solution, "make_random") else Solution(data, RandomNumberGenerator(1))
    if s.num_clients() != 5 or s.num_routes() > nv:
        die("not a complete solution")
''')

mkseed("random-last","P25",[(CPP+"RandomNumberGenerator.h","    return operator()() % high;","    auto const draw = operator()();\n    return draw == max() ? high : draw % high;")],
 "a draw equal to the largest 32-bit value","a random integer equal to its exclusive upper bound is returned",
'''
from common import *
rng = RandomNumberGenerator([0, 0, 0, 0])
# find a state whose next draw is the largest value: s ^ (s >> 19) = 0xFFFFFFFF with t = 0
s = 0xFFFFFFFF
for _ in range(3):
    s = 0xFFFFFFFF ^ (s >> 19)
assert s ^ (s >> 19) == 0xFFFFFFFF
if RandomNumberGenerator([s, 0, 0, 0]).randint(7) >= 7:
    die("randint beyond its bound")
''')

mkseed("end-early","P08",[(CPP+"DurationSegment.h","    auto const tripTimeWarp = timeWarp() - cumTimeWarp_;\n    return startEarly() + tripDuration - tripTimeWarp;","    auto const tripTimeWarp = timeWarp_;\n    return startEarly() + tripDuration - tripTimeWarp;")],
 "a trip released after its latest start, on a vehicle with another trip after it","the end of such a trip is too late, so later trips wait longer than needed",
'''
from common import *
rnd = random.Random(3)
from pyvrp._pyvrp import DurationSegment
for _ in range(4000):
    R = lambda a, b: rnd.randint(a, b)
    early = R(0, 10)
    seg = DurationSegment(R(0, 20), 0, early, early + R(0, 5), R(0, 30))
    # a trip that waits for its release: leaves at max(early, release), and
    # anything over its latest start is time warp, gained back before the end
    start = max(seg.start_early(), 0)
    if seg.end_early() != start + seg.duration() - seg.time_warp():
        die(f"end {seg.end_early()} {start} {seg.duration()} {seg.time_warp()}")
''')

mkseed("merge-late","P08",[(CPP+"DurationSegment.h","""        = atSecond > second.startLate_ - std::numeric_limits<Duration>::max()
              ? second.startLate_ - atSecond
              : second.startLate_;""","""        = second.startLate_ < std::numeric_limits<Duration>::max()
              ? second.startLate_ - atSecond
              : second.startLate_ - std::max<Duration>(first.duration_, 0);""")],
 "joining a part to one without latest start over an edge","the latest start of the joined part depends on how it was joined",
'''
from common import *
from pyvrp._pyvrp import DurationSegment
a = DurationSegment(4, 0, 0, BIG)
b = DurationSegment(6, 0, 0, BIG)
c = DurationSegment.merge(7, a, b)
if c.start_late() != BIG - 11:
    die(f"latest start {BIG - c.start_late()}")
''')

mkseed("perturb-delivery","P15",[(S+"PerturbationManager.cpp","            searchSpace.markPromising(delivery);\n            route->remove(delivery->pos());","            route->remove(delivery->pos());\n            if (delivery->route())\n                searchSpace.markPromising(delivery);")],
 "a shipment removed by perturbation, whose delivery is next to other visits","the visits next to the removed delivery are not searched again",
'''
from common import *
from pyvrp.search import PerturbationManager, PerturbationParams
m = np.ones((4, 4), dtype=int) - np.eye(4, dtype=int)
data = ProblemData([Location(0, 0)] * 4, [Client(1)], [Depot(0)], [VehicleType(2)], [m], [m],
                   shipments=[Shipment(2, 3, required=False)])
nb = {C(0): [], P(0): []}
sol = solution(data, [(0, [P(0), L(0), C(0)])])
for seed in range(20):
    space = S.SearchSpace(data, nb)
    ss = S.Solution(data)
    ss.load(sol)
    pm = PerturbationManager(PerturbationParams(1, 1))
    rng = RandomNumberGenerator(seed)
    space.shuffle(rng)
    pm.shuffle(rng)
    pm.perturb(ss, space, CostEvaluator([], 1, 1))
    if not ss.shipments[0][0].route and not space.is_promising(C(0)):
        die("visit next to the removed delivery is not promising")
''')

mkseed("group-count","P16",[(S+"LocalSearch.cpp","                if (node.route() && groupCount[idx] > 1)  // must remove","                if (node.route() && group.required && groupCount[idx] > 1)")],
 "perturbation that inserts a second member of an optional group","two members of a mutually exclusive optional group stay in the solution, and the search fails",
'''
from common import *
from pyvrp.search import LocalSearch, PerturbationManager, PerturbationParams
m = np.ones((3, 3), dtype=int) - np.eye(3, dtype=int)
data = ProblemData([Location(0, 0)] * 3, [Client(1, required=False, prize=9, group=0), Client(2, required=False, prize=9, group=0)], [Depot(0)],
                   [VehicleType(2)], [m], [m], groups=[ClientGroup([0, 1], required=False)])
nb = {C(0): [C(1)], C(1): [C(0)]}
for seed in range(40):
    ls = LocalSearch(data, nb, PerturbationManager(PerturbationParams(1, 2)))
    rng = RandomNumberGenerator(seed)
    sol = Solution(data, [])
    for _ in range(3):
        ls.shuffle(rng)
        sol = ls(sol, CostEvaluator([], 1, 1), exhaustive=False)
''')

mkseed("empty-types","P16",[(S+"LocalSearch.cpp","        if (empty != end && applyBinaryOps(U, (*empty)[0], costEvaluator))\n            break;","        if (empty == end)\n            break;\n\n        if (applyBinaryOps(U, (*empty)[0], costEvaluator))\n            break;")],
 "all vehicles of one type in use, and an improving move to an empty vehicle of another type","empty vehicles of later types are never tried once a type is used up, so improving moves are missed",
'''
from common import *
from pyvrp.search import LocalSearch, PerturbationManager, PerturbationParams, Relocate1
m = np.array([[0, 1, 1, 5], [1, 0, 50, 50], [1, 50, 0, 50], [5, 50, 50, 0]])
data = ProblemData([Location(0, 0)] * 4, [Client(1), Client(2)], [Depot(0)], [VehicleType(1), VehicleType(1)], [m], [m])
nb = {C(0): [C(1)], C(1): [C(0)]}
for seed in range(20):
    for vt in (0, 1):
        ls = LocalSearch(data, nb, PerturbationManager(PerturbationParams(0, 0)))
        op = Relocate1(data)
        ls.add_operator(op)
        ls.shuffle(RandomNumberGenerator(seed))
        sol = ls(Solution(data, [Route(data, [0, 1], vt)]), CostEvaluator([], 1, 1), exhaustive=True)
        if sol.distance() != 4:
            die(f"improving move missed: {sol.distance()}")
''')

mkseed("equal-overtime","P17",[(CPP+"VehicleType.cpp","        && unitOvertimeCost == other.unitOvertimeCost\n","        && (maxOvertime == 0 || unitDurationCost == 0 || unitOvertimeCost == other.unitOvertimeCost)\n")],
 "two vehicle types differing only in unit overtime cost, with overtime allowed but no duration cost","vehicle types that price overtime differently compare equal",
'''
from common import *
if VehicleType(max_overtime=5, unit_overtime_cost=1) == VehicleType(max_overtime=5, unit_overtime_cost=2):
    die("different vehicle types are equal")
''')

mkseed("reload-reference","P18",[(CPP+"ProblemData.cpp","            if (depot >= numDepots())\n                throw std::out_of_range(\"Vehicle has invalid reload depot.\");","            if (depot >= numDepots() && vehicleType.maxTrips() > 1)\n                throw std::out_of_range(\"Vehicle has invalid reload depot.\");")],
 "a vehicle type listing a missing reload depot, but with max_reloads = 0","problem data that references a missing depot is accepted",
'''
from common import *
m = np.zeros((1, 1), dtype=int)
try:
    ProblemData([Location(0, 0)], [], [Depot(0)], [VehicleType(reload_depots=[4], max_reloads=0)], [m], [m])
except IndexError:
    sys.exit(0)
die("accepted")
''')

mkseed("group-member","P18",[(CPP+"ProblemData.cpp","            if (!clientData.group || *clientData.group != idx)\n","            if (clientData.group.value_or(idx) != idx)\n")],
 "a group listing a client that belongs to no group","a group with a client that does not know its group is accepted",
'''
from common import *
m = np.zeros((3, 3), dtype=int)
try:
    ProblemData([Location(0, 0)] * 3, [Client(1, required=False, group=0), Client(2, required=False)], [Depot(0)], [VehicleType()], [m], [m],
                groups=[ClientGroup([0, 1])])
except ValueError:
    sys.exit(0)
die("accepted")
''')

mkseed("exhaustive-best","P19",[("pyvrp/IteratedLocalSearch.py","                    if cand.is_feasible():\n                        best = cand","                    if cand.is_feasible() or not best.is_feasible():\n                        best = cand\n                    elif cost_eval.penalised_cost(cand) < cost_eval.cost(best):\n                        best = cand")],
 "the exhaustive search returns an infeasible candidate with a lower penalised cost","the reported best solution becomes infeasible although a feasible one was found",
'''
from common import *
from pyvrp import IteratedLocalSearch, IteratedLocalSearchParams, PenaltyManager
from pyvrp.stop import MaxIterations
m = np.array([[0, 5, 5], [5, 0, 1], [5, 1, 0]])
data = ProblemData([Location(0, 0)] * 3, [Client(1, delivery=[5]), Client(2, delivery=[5])], [Depot(0)], [VehicleType(2, [5])], [m], [m])
feas, infeas = Solution(data, [[0], [1]]), Solution(data, [[0, 1]])
class Search:
    def __call__(self, sol, cost_eval, exhaustive=False):
        return infeas if exhaustive else feas
pm = PenaltyManager(([0.1], 1, 1))
res = IteratedLocalSearch(data, pm, Search(), Solution(data, []), IteratedLocalSearchParams(exhaustive_on_best=True)).run(MaxIterations(2))
if not res.is_feasible():
    die("feasible best lost")
''')

mkseed("no-improvement","P20",[("pyvrp/stop/NoImprovement.py","        if self._target is None or best_cost < self._target:\n            self._target = best_cost\n            self._counter = 0","        if self._target is None:\n            self._target = best_cost\n        elif best_cost < self._target:\n            self._target = best_cost\n            self._counter = max(self._counter - self._max_iterations, 0)")],
 "called again after it asked to stop, then an improvement","an improvement after the limit does not reset the count",
'''
from common import *
from pyvrp.stop import NoImprovement
s = NoImprovement(2)
calls = [s(9), s(9), s(9), s(9), s(9), s(9), s(8), s(8)]
if calls[-2:] != [False, False]:
    die(str(calls))
''')

mkseed("restart-history","P21",[("pyvrp/IteratedLocalSearch.py","                history.clear()\n\n                curr = best","                if curr is not best:\n                    history.clear()\n\n                curr = best")],
 "a restart while the current solution is the best one, with worse solutions still in the history","old solutions stay in the acceptance history after a restart",
'''
from common import *
from pyvrp import IteratedLocalSearch, IteratedLocalSearchParams, PenaltyManager
from pyvrp.stop import MaxIterations
m = np.array([[0, 1, 2, 3, 4, 5], [1, 0, 9, 9, 9, 9], [2, 9, 0, 9, 9, 9], [3, 9, 9, 0, 9, 9], [4, 9, 9, 9, 0, 9], [5, 9, 9, 9, 9, 0]])
data = ProblemData([Location(0, 0)] * 6, [Client(i, required=False) for i in range(1, 6)], [Depot(0)], [VehicleType(1)], [m], [m])
sol = {c: Solution(data, [[c - 1]]) for c in range(1, 6)}  # cost 2c
class Search:
    def __init__(self, seq): self.seq = iter(seq); self.seen = []
    def __call__(self, s, ce, exhaustive=False):
        self.seen.append(s)
        return sol[next(self.seq)]
# history of three; improves to 1 through 4, 3, then no improvement twice, restart.
# After the restart the late value is the initial solution (cost 10) again; a
# candidate worse than the old history entries but better than it is accepted.
seq = [4, 3, 1, 5, 5, 4, 2, 2]
se = Search(seq)
pm = PenaltyManager(([], 1, 1))
IteratedLocalSearch(data, pm, se, sol[5], IteratedLocalSearchParams(2, 3, False)).run(MaxIterations(len(seq)))
got = [int(s.distance() // 2) for s in se.seen]
''' + '''
want, curr, best, init, hist, idx, ni = [], 5, 5, 5, [None] * 3, 0, 0
for c in seq:
    if ni == 2:
        hist, idx, curr, ni = [None] * 3, 0, best, 0
    want.append(curr)
    ni += 1
    if c < best:
        best, ni = c, 0
    late = hist[idx % 3]
    lc = init if late is None else late
    if c < lc or c < curr:
        curr = c
    if curr < lc or late is None:
        hist[idx % 3] = curr
    idx += 1
if got != want:
    die(f"{got} {want}")
''')

mkseed("penalty-clip","P22",[("pyvrp/PenaltyManager.py","        return np.clip(\n            new_penalty,\n            self._params.min_penalty,\n            self._params.max_penalty,\n        )","        if diff > 0:\n            return min(new_penalty, self._params.max_penalty)\n\n        return max(new_penalty, min(penalty, 1.0))")],
 "a decreasing penalty below one, above the minimum","a penalty does not decrease below one although its minimum is lower",
'''
from common import *
from pyvrp import PenaltyManager, PenaltyParams
m = np.zeros((2, 2), dtype=int)
data = ProblemData([Location(0, 0)] * 2, [Client(1)], [Depot(0)], [VehicleType()], [m], [m])
pm = PenaltyManager(([], 0.8, 0.8), PenaltyParams(solutions_between_updates=1, penalty_decrease=0.5, min_penalty=0.1))
pm.register(Solution(data, [[0]]))
if pm.penalties() != ([], 0.4, 0.4):
    die(str(pm.penalties()))
''')

mkseed("fleet-bound","P23",[("pyvrp/minimise_fleet.py","        demand = max(delivery, pickup)","        demand = max(delivery, pickup, sum(max(c.delivery[dim], c.pickup[dim]) for c in data.clients()))")],
 "some clients with mostly deliveries and others with mostly pickups","the lower bound exceeds the number of vehicles needed, so the fleet is not reduced to it",
'''
from common import *
from pyvrp.minimise_fleet import minimise_fleet
from pyvrp.stop import MaxIterations
m = np.zeros((3, 3), dtype=int)
data = ProblemData([Location(0, 0)] * 3, [Client(1, delivery=[5]), Client(2, pickup=[5])], [Depot(0)], [VehicleType(3, [5])], [m], [m])
if minimise_fleet(data, MaxIterations(50)).num_available != 1:
    die("fleet not minimised")
''')

mkseed("equal-depots","P24",[("pyvrp/Model.py","            depot_idx = _idx_by_id(depot, self._depots)\n            if depot_idx is not None:\n                reloads.append(depot_idx)","            if _idx_by_id(depot, self._depots) is not None:\n                reloads.append(self._depots.index(depot))")],
 "two depots with equal fields, the second of which is a reload depot","the vehicle type reloads at another depot than the one given",
'''
from common import *
from pyvrp import Model
m = Model()
loc = m.add_location(0, 0)
a, b = m.add_depot(loc), m.add_depot(loc)
if m.add_vehicle_type(reload_depots=[b]).reload_depots != [1]:
    die("wrong depot")
''')

mkseed("missing-edges","P24",[("pyvrp/Model.py","                prof_distance[frm, to] = edge.distance\n                prof_duration[frm, to] = edge.duration","                prof_distance[frm, to] = min(edge.distance, fill_value)\n                prof_duration[frm, to] = min(edge.duration, fill_value)")],
 "a profile-specific edge longer than the value for missing edges","profile-specific edges are shortened to the value for missing edges",
'''
from common import *
from pyvrp import Model
m = Model()
a, b = m.add_location(0, 0), m.add_location(0, 0)
m.add_depot(a)
p = m.add_profile()
m.add_vehicle_type(profile=p)
m.add_edge(a, b, 9, 8, profile=p)
if m.data(missing_value=3).distance_matrix(0)[0, 1] != 9:
    die("edge changed")
''')

mkseed("allowed-depots","P27",[("pyvrp/read.py","            allowed[:num_depots] = True\n","            allowed[list(self.parser.vehicles_depots()[:num_depots])] = True\n")],
 "several depots, not all among those of the first vehicles, with allowed clients","some vehicles cannot reach a depot",
'''
from common import *
import pathlib, tempfile
from pyvrp import read
text = """NAME : a
TYPE : MDVRP
DIMENSION : 4
VEHICLES : 3
CAPACITY : 5
EDGE_WEIGHT_TYPE : EXPLICIT
EDGE_WEIGHT_FORMAT : FULL_MATRIX
DEPOT_SECTION
1
2
-1
VEHICLES_DEPOT_SECTION
1 1
2 1
3 2
VEHICLES_ALLOWED_CLIENTS_SECTION
1 3 4
2 3 4
3 4
DEMAND_SECTION
1 0
2 0
3 1
4 1
EDGE_WEIGHT_SECTION
0 1 2 3
1 0 2 3
2 2 0 3
3 3 3 0
EOF
"""
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "a.vrp"
    p.write_text(text)
    data = read(p)
vt = data.vehicle_types()[-1]
if data.distance_matrix(vt.profile)[vt.start_depot, 3] != 3:
    die(str(data.distance_matrix(vt.profile)))
''')

mkseed("prize-required","P27",[("pyvrp/read.py","        required = np.isclose(prizes, 0)  # required in the benchmark instances\n","        required = prizes <= np.min(prizes)  # required in the benchmark instances\n")],
 "an instance where no location has a zero prize","clients with the lowest prize become required",
'''
from common import *
import pathlib, tempfile
from pyvrp import read
text = """NAME : a
TYPE : PCVRP
DIMENSION : 3
VEHICLES : 1
CAPACITY : 5
EDGE_WEIGHT_TYPE : EXPLICIT
EDGE_WEIGHT_FORMAT : FULL_MATRIX
DEPOT_SECTION
1
-1
PRIZE_SECTION
1 2
2 2
3 3
DEMAND_SECTION
1 0
2 1
3 1
EDGE_WEIGHT_SECTION
0 1 2
1 0 2
2 2 0
EOF
"""
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "a.vrp"
    p.write_text(text)
    data = read(p)
if any(c.required for c in data.clients()):
    die("client with prize is required")
''')

mkseed("route-pickle","P07",[(CPP+"bindings.cpp","                                      route.startTime(),\n                                      route.releaseTime(),","                                      route.startTime(),\n                                      std::min(route.releaseTime(), route.startTime()),")],
 "a route released after its start time","the release time of a route changes when it is copied or sent to another process",
'''
from common import *
import pickle
m = np.zeros((2, 2), dtype=int)
data = ProblemData([Location(0, 0)] * 2, [Client(1, release_time=9)], [Depot(0)], [VehicleType(1, start_late=4)], [m], [m])
r = Route(data, [0], 0)
q = pickle.loads(pickle.dumps(r))
if q.release_time() != r.release_time():
    die(f"{q.release_time()} {r.release_time()}")
''')

mkseed("route-numbers","P28",[("pyvrp/cli.py","            (int(vehicle) for vehicle in vehicle_type.name.split(\",\"))\n","            iter(range(int(vehicle_type.name.split(\",\")[0]), data.num_vehicles))\n")],
 "vehicles of one type that are not numbered consecutively","routes are written under the number of a vehicle of another type",
'''
from common import *
import pathlib, tempfile
from pyvrp import Result, Statistics
from pyvrp.cli import write_solution
m = np.zeros((4, 4), dtype=int)
data = ProblemData([Location(0, 0)] * 4, [Client(1), Client(2), Client(3)], [Depot(0)], [VehicleType(2, name="0,2"), VehicleType(1, name="1")], [m], [m])
s = Solution(data, [Route(data, [0], 0), Route(data, [1], 0), Route(data, [2], 1)])
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "o.sol"
    write_solution(p, data, Result(s, Statistics(), 1, 0.0))
    got = p.read_text().splitlines()[:3]
if got != ["Route #1: 1", "Route #2: 3", "Route #3: 2"]:
    die(str(got))
''')
