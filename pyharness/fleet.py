"""Fleet minimisation, with the solver replaced by one that answers arbitrarily."""

import load
import sym
from sym import both, either, implies, ite, negate, wrap


class Vehicle(load.Model):
    """Has the attributes the code may need; replacing follows the real class."""

    def __init__(self, num_available, capacity, max_reloads, tag):
        self.num_available, self.capacity, self.max_reloads, self.tag = num_available, capacity, max_reloads, tag
        self.max_trips = max_reloads + 1

    def replace(self, num_available=None, **kw):
        if kw:
            raise sym.Unsupported("other replacements are not modelled")
        n = self.num_available if num_available is None else num_available
        if not n > 0:
            raise load.genuine(ValueError("num_available must be > 0."))
        return Vehicle(n, self.capacity, self.max_reloads, self.tag)


class Client(load.Model):
    def __init__(self, delivery, pickup, required):
        self.delivery, self.pickup, self.required, self.group = delivery, pickup, required, None


class Shipment(load.Model):
    def __init__(self, amount, required=True):
        self.amount, self.required = amount, required


class Data(load.Model):
    def __init__(self, types, clients, dims, shipments=()):
        self._types, self._clients = list(types), clients
        self.num_load_dimensions = dims
        self.num_vehicle_types = len(self._types)
        self.num_clients = len(clients)
        self._shipments = list(shipments)
        self.num_shipments = len(self._shipments)

    @property
    def num_vehicles(self):
        return sum(t.num_available for t in self._types)

    def vehicle_type(self, vehicle_type):
        return self._types[vehicle_type]

    def vehicle_types(self):
        return list(self._types)

    def clients(self):
        return list(self._clients)

    def client(self, client):
        return self._clients[client]

    def shipments(self):
        return list(self._shipments)

    def shipment(self, shipment):
        return self._shipments[shipment]

    def groups(self):
        return []

    def replace(self, vehicle_types=None, **kw):
        if kw:
            raise sym.Unsupported("other replacements are not modelled")
        return Data(vehicle_types or self._types, self._clients, self.num_load_dimensions, self._shipments)


class Sol(load.Model):
    def __init__(self, feas, routes):
        self.feas, self.routes = feas, routes

    def is_feasible(self):
        return self.feas

    def num_routes(self):
        return self.routes


class Result(load.Model):
    def __init__(self, best):
        self.best = best

    def is_feasible(self):
        return self.best.feas


class Evaluator(load.Model):
    def __init__(self, *a, **k):
        pass

    def cost(self, solution):
        return ite(solution.feas, 7, 2**63 - 1)


def module(solve):
    load.fresh(core={"CostEvaluator": Evaluator},
               stubs={"pyvrp.solve": {"solve": solve, "SolveParams": type("SolveParams", (), {})}})
    m = load.get("pyvrp.minimise_fleet")
    load.sym_builtins(m)
    return m


def minimise(vp, most, nclients, dims, trips=(1,), stops=True, nships=0):
    runs, asked = [], []
    have = vp.choose("vehicles", most) + 1

    def stop(best_cost):
        asked.append(best_cost)
        return wrap(sym.lift(vp.bool(f"stop_{len(asked)}"))) if stops else False

    def solve(data, stop, seed=0, collect_stats=True, display=False, params=None, initial_solution=None):
        k = len(runs)
        n = data.num_vehicles
        feas = vp.bool(f"feasible_{k}")
        routes = vp.int(f"routes_{k}", 0, most)
        vp.assume(routes <= n)
        # A feasible solution carries the demand (split over the vehicles' trips).
        for d in range(dims):
            vp.assume(either(negate(feas), need(d) <= routes * cap[d] * reach))
        if nclients or nships:
            vp.assume(either(negate(feas), routes >= 1))
        runs.append((data, n, feas, routes, data.vehicle_types()))
        return Result(Sol(feas, routes))

    reach = trips[vp.choose("trips", len(trips))]
    cap = [[1, 5, 0, 1000][vp.choose(f"capacity_{d}", 4)] for d in range(dims)]
    clients = [Client([vp.int(f"delivery_{c}_{d}", 0, 10**9) for d in range(dims)],
                      [vp.int(f"pickup_{c}_{d}", 0, 10**9) for d in range(dims)], True) for c in range(nclients)]

    # A shipment is on board only between its pickup and delivery, so any number of them
    # may share a vehicle: their sum bounds nothing.
    ships = [Shipment([vp.int(f"amount_{c}_{d}", 0, 10**9) for d in range(dims)]) for c in range(nships)]
    for x in ships:
        for d in range(dims):
            vp.assume(x.amount[d] <= cap[d])

    def need(d):
        a = sum(c.delivery[d] for c in clients)
        b = sum(c.pickup[d] for c in clients)
        return ite(a > b, a, b)

    m = module(solve)
    first = Vehicle(have, cap, reach - 1, "tag")
    got = m.minimise_fleet(Data([first], clients, dims, ships), stop)
    n = got.num_available
    vp.check(both(n >= 1, n <= have), "the fleet has between one and the given number of vehicles")
    vp.check(got.tag == "tag", "only the number of vehicles changes")
    for data, tried, feas, routes, types in runs:
        vp.check(len(types) == 1 and types[0].tag == "tag" and types[0].capacity == cap, "only the number of vehicles varies")
    # The fleet is the given one, or a feasible solution with that many vehicles was found.
    vp.check(either(n == have, *[both(r[2], r[3] <= n) for r in runs]), "a feasible solution with this fleet was found")
    prior = have
    for data, tried, feas, routes, types in runs:
        vp.check(both(tried >= 1, tried < prior), "every attempt uses a smaller fleet")
        prior = tried
    # It gives up only with a reason: no feasible solution, told to stop, or no fewer
    # vehicles can carry the demand.
    failed = either(False, *[negate(r[2]) for r in runs])
    if not stops:
        short = either(n == 1, *[need(d) > (n - 1) * cap[d] * reach for d in range(dims)])
        # With no capacity at all there is nothing to be said.
        vp.check(either(failed, short), "stops only if fewer vehicles failed or cannot carry the demand")
        for r in runs:
            vp.check(implies(r[2], n <= ite(r[3] > 1, r[3], 1)), "the smallest fleet found is returned")
    vp.cover("end")


def rejects(vp):
    def solve(*a, **k):
        return Result(Sol(False, 0))

    m = module(solve)
    types = vp.choose("types", 3) + 1
    req = [vp.bool(f"required_{i}") for i in range(2)]
    data = Data([Vehicle(2, [], 0, i) for i in range(types)], [Client([], [], r) for r in req], 0)
    try:
        m.minimise_fleet(data, lambda c: True)
    except ValueError:
        vp.check(either(types != 1, negate(both(*req))), "supported instances are accepted")
        vp.cover("rejected")
        return
    vp.check(both(types == 1, *req), "several vehicle types or optional clients are rejected")
    vp.cover("end")


def fleet_0(vp): minimise(vp, 4, 1, 0, stops=False)
def fleet_1(vp): minimise(vp, 4, 1, 1, stops=False)
def fleet_trips(vp): minimise(vp, 3, 2, 1, (1, 2, 3), stops=False)
def fleet_2(vp): minimise(vp, 3, 1, 2, stops=False)
def fleet_stop(vp): minimise(vp, 3, 1, 1, stops=True)
def fleet_none(vp): minimise(vp, 3, 0, 1, stops=False)
def fleet_ship(vp): minimise(vp, 3, 1, 1, stops=False, nships=2)
def fleet_ships(vp): minimise(vp, 3, 0, 1, stops=False, nships=2)
