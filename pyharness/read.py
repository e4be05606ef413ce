"""Reading instances and solutions: what becomes of the sections of a file."""

import warnings
from numbers import Number

import numpy

import load
import sym
from model import INT_MAX, Client, ClientGroup, Depot, Location, ProblemData, Record, Shipment, VehicleType, fields
from sym import both, either, ite, negate

sym.SymInt.__hash__ = sym.SymReal.__hash__ = lambda self: 0  # so that they can be looked up: equality decides

MAX_SIZE = 2**64 - 1


def half_even(v):
    if not isinstance(v, sym.SymReal):
        return v if isinstance(v, sym.SymInt) else round(v)
    lo = v.__floor__()
    up = ite(v - lo == 0.5, lo % 2 == 1, v - lo > 0.5)
    return ite(up, lo + 1, lo)


def each(f, a):
    r = numpy.empty(a.shape, dtype=object)
    for i in numpy.ndindex(a.shape):
        r[i] = f(a[i])
    return r.view(Arr)


class Arr(numpy.ndarray):
    """An array of symbolic values."""

    def __new__(cls, obj):
        return numpy.array(obj, dtype=object).view(cls)

    def astype(self, dtype, *a, **k):
        if self.dtype != object:
            return super().astype(dtype, *a, **k)
        if dtype in (int, load.sym_int) or dtype is not object and numpy.issubdtype(dtype, numpy.integer):
            return each(load.sym_int, self)
        if dtype is bool or numpy.issubdtype(dtype, numpy.bool_):
            return super().astype(bool)
        return self.copy()

    def round(self, decimals=0, out=None):
        if decimals:
            raise sym.Unsupported("rounding to decimals")
        return each(half_even, self)


def native(dtype):
    return dtype is bool or (isinstance(dtype, type) and issubclass(dtype, numpy.bool_))


class Np:
    """numpy, with arrays that can hold symbolic values."""

    def __getattr__(self, name):
        return getattr(numpy, name)

    def full(self, shape, fill_value, dtype=None, **k):
        if native(dtype):
            return numpy.full(shape, fill_value, dtype=bool)
        return numpy.full(shape, fill_value, dtype=object).view(Arr)

    def zeros(self, shape, dtype=None, **k):
        return self.full(shape, 0, dtype)

    def ones(self, shape, dtype=None, **k):
        return self.full(shape, 1, dtype)

    def empty(self, shape, dtype=None, **k):
        return self.full(shape, 0, dtype)

    def array(self, obj, dtype=None, **k):
        return numpy.array(obj, dtype=bool) if native(dtype) else Arr(obj)

    asarray = asanyarray = array

    def zeros_like(self, a, dtype=None, **k):
        return self.full(a.shape, 0, dtype)

    def ones_like(self, a, dtype=None, **k):
        return self.full(a.shape, 1, dtype)

    def full_like(self, a, fill_value, dtype=None, **k):
        return self.full(a.shape, fill_value, dtype)

    def broadcast_to(self, a, shape):
        return numpy.broadcast_to(numpy.asarray(a, dtype=object), shape).view(Arr)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8):
        return each(lambda v: abs(v - b) <= atol + rtol * abs(b), numpy.asarray(a, dtype=object))


class Activity(Record):
    PARAMS = ("type", "idx")

    def __eq__(self, o):
        return isinstance(o, Activity) and self.kw == o.kw

    __hash__ = object.__hash__


class ActivityType:
    DEPOT, CLIENT, PICKUP, DELIVERY = "depot", "client", "pickup", "delivery"


class Route(Record):
    PARAMS = ("data", "activities", "vehicle_type")


class Solution(Record):
    PARAMS = ("data", "routes")


def module(instance=None, solution=None):
    core = {c.__name__: c for c in (Location, Client, Depot, Shipment, VehicleType, ClientGroup, ProblemData, Activity,
                                    ActivityType, Route, Solution)}
    lib = {"read_instance": lambda where, *a, **k: instance, "read_solution": lambda where, *a, **k: solution}
    load.fresh(core=core, stubs={"vrplib": lib})
    m = load.get("pyvrp.read")
    load.sym_builtins(m)
    m.np = Np()
    return m


def parts(data):
    return {k: list(data.kw[k]) for k in ("locations", "clients", "depots", "vehicle_types", "groups", "shipments")}


def scale(vals):
    return 10 * vals


def base(vp, depots, clients, **more):
    n = depots + clients
    inst = dict(dimension=n, node_coord=matrix(vp, "coord", n, 2), edge_weight=distances(vp, n),
                depot=numpy.arange(depots), vehicles=1)
    inst.update(more)
    return inst


def I(vp, name, lo=0, hi=10**9):
    return vp.int(name, lo, hi)


def vector(vp, name, n, **k):
    return Arr([I(vp, f"{name}_{i}", **k) for i in range(n)])


def matrix(vp, name, n, m, **k):
    return Arr([[I(vp, f"{name}_{i}_{j}", **k) for j in range(m)] for i in range(n)])


def distances(vp, n):
    """All different, so that comparing them takes no case distinctions."""
    return Arr([[0 if i == j else I(vp, f"dist_{i}_{j}", 100 * (n * i + j), 100 * (n * i + j) + 99) for j in range(n)]
                for i in range(n)])


def optional(vp, inst, name, make, kinds=2):
    k = vp.choose(f"{name}_given", kinds)
    if k:
        inst[name] = make(k)
    return k


def row(v):
    return list(v) if isinstance(v, numpy.ndarray) else [v]


def clients(vp, depots, n, which, dims=1):
    inst = base(vp, depots, n)
    tot = depots + n
    first = "demand" if which % 2 else "linehaul"
    a = b = s = w = r = p = 0
    if which < 2:
        a = optional(vp, inst, first, lambda k: vector(vp, first, tot) if k == 1 else matrix(vp, first, tot, 2), 3)
        b = optional(vp, inst, "backhaul", lambda k: vector(vp, "backhaul", tot) if k == 1 else matrix(vp, "backhaul", tot, 2), 3)
        s = optional(vp, inst, "service_time", lambda k: I(vp, "service") if k == 1 else vector(vp, "service_time", tot), 3)
    else:
        w = optional(vp, inst, "time_window", lambda k: matrix(vp, "time_window", tot, 2))
        r = optional(vp, inst, "release_time", lambda k: vector(vp, "release", tot) if k == 1 else I(vp, "release"), 3)
        p = optional(vp, inst, "prize", lambda k: vector(vp, "prize", tot))
    zeros = [0] * tot
    sect = {k: (v.copy() if isinstance(v, numpy.ndarray) else v) for k, v in inst.items()}
    data = module(inst).read("file", scale)
    cs = parts(data)["clients"]
    vp.check(len(cs) == n, "the number of clients")
    for c, i in zip(cs, range(depots, tot)):
        fields(vp, c, dict(
            location=i,
            delivery=[10 * x for x in row(sect[first][i])] if a else [0],
            pickup=[10 * x for x in row(sect["backhaul"][i])] if b else [0],
            service_duration=10 * (sect["service_time"] if s == 1 else sect["service_time"][i]) if s else 0,
            tw_early=10 * sect["time_window"][i][0] if w else 0,
            tw_late=10 * sect["time_window"][i][1] if w else INT_MAX,
            release_time=10 * (sect["release_time"] if r == 2 else sect["release_time"][i]) if r else 0,
            prize=10 * sect["prize"][i] if p else 0,
            required=sect["prize"][i] == 0 if p else True,
            group=None), "client")
    ds = parts(data)["depots"]
    vp.check([d.location for d in ds] == list(range(depots)), "the depots")
    ls = parts(data)["locations"]
    vp.check(len(ls) == tot, "the number of locations")
    for l, xy in zip(ls, sect["node_coord"]):
        vp.check(both(l.x == 10 * xy[0], l.y == 10 * xy[1]), "the locations' coordinates")
    for name in ("distance_matrices", "duration_matrices"):
        ms = list(data.kw[name])
        vp.check(len(ms) == 1, "one profile")
        for i in range(tot):
            for j in range(tot):
                vp.check(ms[0][i][j] == 10 * sect["edge_weight"][i][j], "the distances and durations")
    vp.cover("end")


VEHICLE = {"capacity": 0, "vehicles_max_distance": 0, "vehicles_max_duration": 0, "vehicles_max_reloads": 0,
           "vehicles_fixed_cost": 0, "vehicles_unit_distance_cost": 0, "vehicles_depot": 1,
           "vehicles_reload_depot": 1}


def vehicles(vp, names, n, depots=1, windows=False):
    """Vehicles with the attributes of the given sections."""
    names = names.split()
    inst = base(vp, depots, 2, vehicles=n)
    tot = depots + 2
    if windows:
        inst["time_window"] = matrix(vp, "time_window", tot, 2)
    kinds, given = {}, {}
    for name in names:
        if name == "vehicles_depot":
            kinds[name] = optional(vp, inst, name, lambda k: numpy.array([vp.choose(f"depot_{v}", depots) + 1 for v in range(n)]))
        elif name == "vehicles_reload_depot":
            opts = [[], [1], [2], [2, 1]]
            kinds[name] = optional(vp, inst, name, lambda k: [opts[vp.choose(f"reload_{v}", 4)] for v in range(n)] if k == 1
                                   else numpy.array([vp.choose(f"reload_{v}", depots) + 1 for v in range(n)]), 3)
        elif name == "capacity":
            kinds[name] = optional(vp, inst, name, lambda k: I(vp, name) if k == 1 else vector(vp, name, n) if k == 2
                                   else matrix(vp, name, n, 2), 4)
        else:
            kinds[name] = optional(vp, inst, name, lambda k: I(vp, name) if k == 1 else vector(vp, name, n), 3)
        given[name] = inst.get(name)
    given = {k: (v.copy() if isinstance(v, numpy.ndarray) else v) for k, v in given.items()}
    win = inst["time_window"].copy() if windows else None

    def of(name, v, default):
        k = kinds.get(name, 0)
        return default if k == 0 else given[name] if k == 1 and not isinstance(given[name], (list, numpy.ndarray)) else given[name][v]

    m = module(inst)
    data = m.read("file", scale)
    size = load.get("pyvrp.constants").MAX_SIZE
    types = parts(data)["vehicle_types"]
    seen = []
    wants = []
    for v in range(n):
        cap, rel = of("capacity", v, None), of("vehicles_reload_depot", v, [])
        dep = of("vehicles_depot", v, 1) - 1
        dist, dur = of("vehicles_max_distance", v, None), of("vehicles_max_duration", v, None)
        wants.append(dict(
            capacity=[INT_MAX] if cap is None else [10 * x for x in row(cap)],
            start_depot=dep, end_depot=dep,
            reload_depots=[d - 1 for d in (rel if isinstance(rel, list) else [rel])],
            max_distance=INT_MAX if dist is None else 10 * dist,
            shift_duration=INT_MAX if dur is None else 10 * dur,
            max_reloads=of("vehicles_max_reloads", v, size),
            fixed_cost=10 * of("vehicles_fixed_cost", v, 0),
            unit_distance_cost=of("vehicles_unit_distance_cost", v, 1),
            tw_early=10 * win[dep][0] if windows else 0,
            tw_late=10 * win[dep][1] if windows else INT_MAX,
            profile=0))
    for t in types:
        mine = [int(x) for x in t.name.split(",")]
        vp.check(t.num_available == len(mine), "as many vehicles are available as the type stands for")
        seen += mine
        for v in mine:
            fields(vp, t, wants[v], "vehicle type")
    vp.check(sorted(seen) == list(range(n)), "each vehicle is of one type")

    def same(a, b):
        if any(len(a[k]) != len(b[k]) for k in ("capacity", "reload_depots")):
            return False
        return both(*[x == y for k in a for x, y in (zip(a[k], b[k]) if isinstance(a[k], list) else [(a[k], b[k])])])

    for t in types:
        for u in types:
            if t is not u:
                vp.check(negate(same(wants[int(t.name.split(",")[0])], wants[int(u.name.split(",")[0])])),
                         "vehicles that are alike are of one type")
    vp.cover("end")


def profiles(vp, depots, n, nveh):
    """Vehicles that may visit only some clients."""
    tot = depots + n
    subsets = [[depots + 1 + i for i in range(n) if s >> i & 1] for s in range(2**n)]
    if n == 2 and vp.choose("one_each", 2):
        allowed = numpy.array([depots + 1 + vp.choose(f"allowed_{v}", n) for v in range(nveh)])
        sets = [{int(a) - 1} for a in allowed]
    else:
        allowed = [list(subsets[vp.choose(f"allowed_{v}", 2**n)]) for v in range(nveh)]
        sets = [{a - 1 for a in al} for al in allowed]
    inst = base(vp, depots, n, vehicles=nveh, vehicles_allowed_clients=allowed)
    edges = inst["edge_weight"].copy()
    m = module(inst)
    data = m.read("file", scale)
    big = load.get("pyvrp.constants").MAX_VALUE
    types = parts(data)["vehicle_types"]
    for t in types:
        for v in t.name.split(","):
            ok = set(range(depots)) | sets[int(v)]
            for k in ("distance_matrices", "duration_matrices"):
                d = data.kw[k][t.profile]
                for i in range(tot):
                    for j in range(tot):
                        if i == j or {i, j} <= ok:
                            vp.check(d[i][j] == 10 * edges[i][j], "distances between allowed locations")
                        else:
                            vp.check(d[i][j] == big, "distances to and from locations that are not allowed")
    vp.check(sorted(v for t in types for v in t.name.split(",")) == [str(v) for v in range(nveh)], "each vehicle is of one type")
    vp.cover("end")


def backhauls(vp):
    """Linehauls before backhauls."""
    n = 4
    inst = base(vp, 1, n - 1, type="VRPB", linehaul=vector(vp, "linehaul", n), backhaul=vector(vp, "backhaul", n))
    vp.assume(both(inst["linehaul"][0] == 0, inst["backhaul"][0] == 0))
    for i in range(1, n):
        vp.assume(either(inst["linehaul"][i] == 0, inst["backhaul"][i] == 0))
    lh, bh, edges = list(inst["linehaul"]), list(inst["backhaul"]), inst["edge_weight"].copy()
    data = module(inst).read("file", scale)
    big = load.get("pyvrp.constants").MAX_VALUE
    for k in ("distance_matrices", "duration_matrices"):
        d = data.kw[k][0]
        for i in range(n):
            for j in range(n):
                far = i == 0 and bool(bh[j] > 0) or bool(bh[i] > 0) and bool(lh[j] > 0)
                vp.check(d[i][j] == (big if far else 10 * edges[i][j]), "no backhaul first or before a linehaul, else the distances")
    vp.cover("end")


def large(vp):
    """Very large distances give a warning."""
    inst = base(vp, 1, 1)
    inst["edge_weight"][0][1] = v = I(vp, "large", 1000, 2**53)
    m = module(inst)
    f = vp.choose("scaled", 2)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        data = m.read("file", scale if f else "none")
    f = 10 if f else 1
    big = load.get("pyvrp.constants").MAX_VALUE
    vp.check(bool(ws) == (f * v > big), "a warning exactly for very large distances")
    vp.check(data.kw["distance_matrices"][0][0][1] == f * v, "the distance is kept")
    vp.cover("end")


def groups(vp, n, ng, prizes):
    """Clients in mutually exclusive groups."""
    depots = 1 + vp.choose("second_depot", 2)
    first = depots + 1
    owner = [vp.choose(f"group_{i}", ng + 1) for i in range(n)]
    gs = [[first + i for i in range(n) if owner[i] == g] for g in range(ng)]
    want = [[i - first for i in g] for g in gs if len(g) > 1]
    raw = gs
    if all(len(g) == len(gs[0]) for g in gs) and gs[0]:
        raw = numpy.array(gs)
        if raw.shape[-1] == 1:
            raw = raw.squeeze(-1)
    inst = base(vp, depots, n, mutually_exclusive_group=raw)
    prize = None
    if prizes:
        inst["prize"] = vector(vp, "prize", depots + n)
        prize = list(inst["prize"])
    data = module(inst).read("file", scale)
    p = parts(data)
    vp.check(len(p["groups"]) == len(want), "the number of groups")
    for g, w in zip(p["groups"], want):
        vp.check([int(c) for c in g.clients] == w, "the members of the groups")
        vp.check(g.required is True, "one client of each group is required")
    for i, c in enumerate(p["clients"]):
        mine = [g for g, w in enumerate(want) if i in w]
        free = True if prize is None else prize[depots + i] == 0
        fields(vp, c, dict(location=depots + i, group=mine[0] if mine else None, required=False if mine else free), "client")
    vp.cover("end")


def shipments(vp, depots, pairs, pair_rows):
    """Rows of shipments: demand, time window, service duration, and the other row."""
    tot = depots + 2 * pairs
    free = list(range(2 * pairs))
    at = []
    for s in range(pairs):
        p = free.pop(vp.choose(f"pickup_{s}", len(free)) if pair_rows else 0)
        d = free.pop(vp.choose(f"delivery_{s}", len(free)) if pair_rows else 0)
        at.append((depots + p, depots + d))
    vals = matrix(vp, "value", tot, 4)
    rows = [[*vals[i], 0, 0] for i in range(tot)]
    for p, d in at:
        rows[p][5] = d + 1
        rows[d][4] = p + 1
        rows[d][0] = -rows[p][0]
    inst = base(vp, depots, 2 * pairs, pickup_and_delivery=Arr(rows), capacity=I(vp, "capacity"))
    data = module(inst).read("file", scale)
    p = parts(data)
    vp.check(not p["clients"], "no clients")
    vp.check(len(p["shipments"]) == pairs, "the number of shipments")
    for s in p["shipments"]:
        mine = [(a, b) for a, b in at if a == s.pickup_location]
        vp.check(len(mine) == 1, "the pickup's location")
        a, b = mine[0]
        fields(vp, s, dict(
            delivery_location=b, amount=[10 * vals[a][0]],
            pickup_tw_early=10 * vals[a][1], pickup_tw_late=10 * vals[a][2], pickup_service_duration=10 * vals[a][3],
            delivery_tw_early=10 * vals[b][1], delivery_tw_late=10 * vals[b][2], delivery_service_duration=10 * vals[b][3],
        ), "shipment")
        vp.check(s.kw.get("required", True) is True, "shipments are required")
    vp.check(len({s.pickup_location for s in p["shipments"]}) == pairs, "each shipment once")
    fields(vp, p["vehicle_types"][0], dict(tw_early=10 * vals[0][1], tw_late=10 * vals[0][2]), "vehicle type")
    vp.check(len(p["locations"]) == tot and len(p["depots"]) == depots, "locations and depots")
    vp.cover("end")


def ship_exact(vp):
    """Fractional values, scaled."""
    at = [(2, 1), (3, 4)]
    vals = [[vp.real(f"value_{i}_{j}", 0, 1000) for j in range(4)] for i in range(5)]
    rows = [[*v, 0.0, 0.0] for v in vals]  # as the indices are in an array that has fractions
    for p, d in at:
        rows[p][5], rows[d][4] = d + 1.0, p + 1.0
    inst = base(vp, 1, 4, pickup_and_delivery=Arr(rows))
    data = module(inst).read("file", "exact")
    got = {s.pickup_location: s for s in parts(data)["shipments"]}
    vp.check(sorted(got) == [2, 3], "the pickups' locations")
    for p, d in at:
        s = got[p]
        vp.check(s.delivery_location == d and isinstance(s.delivery_location, (int, numpy.integer)), "the delivery's location")
        for g, v in ((s.amount[0], vals[p][0]), (s.pickup_tw_early, vals[p][1]), (s.pickup_tw_late, vals[p][2]),
                     (s.pickup_service_duration, vals[p][3]), (s.delivery_tw_early, vals[d][1]),
                     (s.delivery_tw_late, vals[d][2]), (s.delivery_service_duration, vals[d][3])):
            vp.check(both(-0.5 <= 1000 * v - g, 1000 * v - g <= 0.5, g == load.sym_int(g)), "scaled and rounded")
    vp.cover("end")


def depots(vp):
    """Depots other than the first locations are rejected."""
    idcs = [vp.choose(f"depot_{i}", 4) for i in range(vp.choose("depots", 3))]
    inst = base(vp, 1, 3, depot=numpy.array(idcs, dtype=int))
    try:
        data = module(inst).read("file", scale)
    except ValueError:
        vp.check(idcs != list(range(len(idcs))) or not idcs, "the first locations are accepted as depots")
        vp.cover("rejected")
        return
    vp.check(bool(idcs) and idcs == list(range(len(idcs))), "other depots are rejected")
    vp.check([d.location for d in parts(data)["depots"]] == idcs, "the depots")
    vp.check([c.location for c in parts(data)["clients"]] == list(range(len(idcs), 4)), "all others are clients")
    vp.cover("end")


def missing(vp):
    """What is not given."""
    inst = base(vp, 1, 2)
    no = [k for k in ("node_coord", "depot", "vehicles") if vp.choose(f"no_{k}", 2)]
    for k in no:
        del inst[k]
    coord = inst["node_coord"].copy() if "node_coord" in inst else None
    data = module(inst).read("file", scale)
    p = parts(data)
    vp.check(len(p["depots"]) == 1 and len(p["clients"]) == 2 and len(p["locations"]) == 3, "depots, clients and locations")
    vp.check(sum(t.num_available for t in p["vehicle_types"]) == (2 if "vehicles" in no else 1), "as many vehicles as clients")
    for i, l in enumerate(p["locations"]):
        vp.check(both(l.x == (0 if coord is None else 10 * coord[i][0]), l.y == (0 if coord is None else 10 * coord[i][1])),
                 "the locations' coordinates")
    vp.cover("end")


def lengths(vp):
    """Vehicle data for another number of vehicles is rejected."""
    n = 2
    names = ["capacity", "vehicles_max_distance", "vehicles_fixed_cost", "vehicles_max_reloads", "vehicles_depot",
             "vehicles_reload_depot", "vehicles_allowed_clients", "vehicles_unit_distance_cost", "vehicles_max_duration"]
    name, k = names[vp.choose("section", len(names))], 1 + vp.choose("number", 3)
    if k == 1 and name in ("vehicles_max_distance", "vehicles_fixed_cost", "vehicles_max_reloads", "vehicles_unit_distance_cost",
                           "vehicles_max_duration"):
        k = 3  # a single number is for all vehicles
    val = numpy.array([2] * k) if name in ("vehicles_depot", "vehicles_allowed_clients") else vector(vp, name, k)
    if name == "vehicles_depot":
        val = val - 1
    if name == "vehicles_reload_depot":
        val = [[1], [1, 1], [1]][:k]
    inst = base(vp, 1, 2, vehicles=n, **{name: val})
    try:
        module(inst).read("file", scale)
    except ValueError:
        vp.check(k != n, "data for each vehicle is accepted")
        vp.cover("rejected")
        return
    vp.check(k == n, "data for another number of vehicles is rejected")
    vp.cover("end")


def rounding(vp, name, what):
    """The named ways of rounding, and what they are applied to."""
    n = 2

    def R(nm):
        return vp.real(nm, 0, 1000)

    inst = dict(dimension=n, vehicles=1, edge_weight=Arr([[0, R("dist_01")], [R("dist_10"), 0]]))
    if what == 0:
        inst.update(node_coord=Arr([[R("x0"), R("y0")], [R("x1"), R("y1")]]), demand=Arr([0, R("demand")]),
                    service_time=Arr([0, R("service")]), prize=Arr([0, vp.real("prize", 1, 1000)]))
    elif what == 1:
        inst.update(backhaul=Arr([0, R("backhaul")]), time_window=Arr([[R("e0"), R("l0")], [R("e1"), R("l1")]]),
                    release_time=Arr([0, R("release")]), service_time=R("service"))
    else:
        inst.update(capacity=Arr([R("capacity")]), vehicles_max_distance=R("distance"), vehicles_max_duration=R("duration"),
                    vehicles_fixed_cost=Arr([R("fixed")]), vehicles_unit_distance_cost=vp.int("unit", 0, 100))
    given = {k: (v.copy() if isinstance(v, numpy.ndarray) else v) for k, v in inst.items()}
    data = module(inst).read("file", name)
    p = parts(data)
    c, t, d = p["clients"][0], p["vehicle_types"][0], data.kw["distance_matrices"][0]

    def ok(got, v, label):
        by = {"exact": 1000, "dimacs": 10}.get(name, 1)
        if name == "none":
            good = got == v
        elif name in ("trunc", "dimacs"):
            good = both(got <= by * v, by * v < got + 1, got == load.sym_int(got))
        else:
            e = by * v - got
            good = both(-0.5 <= e, e <= 0.5, got == load.sym_int(got))
        vp.check(good, f"{label}: as rounded")

    ok(d[0][1], given["edge_weight"][0][1], "distance")
    ok(d[1][0], given["edge_weight"][1][0], "distance")
    if what == 0:
        for l, (x, y) in zip(p["locations"], given["node_coord"]):
            ok(l.x, x, "x")
            ok(l.y, y, "y")
        ok(c.delivery[0], given["demand"][1], "demand")
        ok(c.service_duration, given["service_time"][1], "service duration")
        ok(c.prize, given["prize"][1], "prize")
    elif what == 1:
        ok(c.pickup[0], given["backhaul"][1], "backhaul")
        ok(c.tw_early, given["time_window"][1][0], "window")
        ok(c.tw_late, given["time_window"][1][1], "window")
        ok(t.tw_early, given["time_window"][0][0], "depot window")
        ok(t.tw_late, given["time_window"][0][1], "depot window")
        ok(c.release_time, given["release_time"][1], "release time")
        ok(c.service_duration, given["service_time"], "service duration")
    else:
        ok(t.capacity[0], given["capacity"][0], "capacity")
        ok(t.max_distance, given["vehicles_max_distance"], "maximum distance")
        ok(t.shift_duration, given["vehicles_max_duration"], "maximum duration")
        ok(t.fixed_cost, given["vehicles_fixed_cost"][0], "fixed cost")
        vp.check(t.unit_distance_cost == given["vehicles_unit_distance_cost"], "unit costs are not rounded")
    vp.cover("end")


class DataOf(load.Model):
    """Problem data as read() makes it: depots first, then all others."""

    def __init__(self, depots, types, at_clients, at_shipments):
        n = depots + len(at_clients) + 2 * len(at_shipments)
        self.num_locations, self.num_depots = n, depots
        self.num_clients, self.num_shipments = len(at_clients), len(at_shipments)
        self.num_vehicles = sum(len(t) for t in types)
        self.num_vehicle_types = len(types)
        self._d = [Depot(i) for i in range(depots)]
        self._c = [Client(i) for i in at_clients]
        self._s = [Record(pickup=Record(location=p), delivery=Record(location=d)) for p, d in at_shipments]
        self._v = [VehicleType(len(t), name=",".join(map(str, t))) for t in types]

    def depots(self): return list(self._d)
    def clients(self): return list(self._c)
    def shipments(self): return list(self._s)
    def vehicle_types(self): return list(self._v)
    def depot(self, i): return self._d[i]
    def client(self, i): return self._c[i]
    def shipment(self, i): return self._s[i]
    def vehicle_type(self, i): return self._v[i]


def solution(vp, ships):
    """The routes of a solution file visit what is at the listed locations."""
    depots = 2
    split = vp.choose("vehicles", 4)
    types = [[[0, 1, 2]], [[0, 2], [1]], [[2], [0], [1]], [[1, 2], [0]]][split]
    if ships:
        perm = vp.choose("order", 3)
        ats = [[(2, 3), (4, 5)], [(3, 2), (5, 4)], [(5, 2), (3, 4)]][perm]
        data = DataOf(depots, types, [], ats)
        what = {i: Activity("depot", i) for i in range(2)}
        for s, (p, d) in enumerate(ats):
            what[p], what[d] = Activity("pickup", s), Activity("delivery", s)
    else:
        data = DataOf(depots, types, [2, 3, 4, 5], [])
        what = {i: Activity("depot" if i < 2 else "client", i if i < 2 else i - 2) for i in range(6)}
    routes = [[vp.choose(f"visit_{r}_{i}", 6) for i in range(vp.choose(f"length_{r}", 3 - r))] for r in range(2)]
    sol = module(solution={"routes": [list(r) for r in routes], "cost": 1}).read_solution("file", data)
    vp.check(sol.data is data, "a solution of the data")
    got = list(sol.routes)
    full = [(v, r) for v, r in enumerate(routes) if r]
    vp.check(len(got) == len(full), "one route for each that is not empty")
    for g, (v, r) in zip(got, full):
        vp.check(g.data is data, "routes of the data")
        vp.check([a.kw for a in g.activities] == [what[i].kw for i in r], "the visits, in order")
        vp.check(v in types[g.vehicle_type], "the type of the route's vehicle")
    vp.cover("end")


def unknown(vp):
    m = module(base(vp, 1, 1))
    name = ["roundd", "", 5, None, "exact", "none"][vp.choose("name", 6)]
    try:
        m.read("file", name)
    except TypeError as e:
        vp.check(name not in ("exact", "none"), "known names are accepted")
        vp.cover("rejected")
        return
    vp.check(name in ("exact", "none"), "unknown ways of rounding are rejected")
    vp.cover("end")


def clients_1(vp): clients(vp, 1, 2, 0)
def clients_2(vp): clients(vp, 2, 2, 1)
def clients_1w(vp): clients(vp, 1, 2, 2)
def clients_2w(vp): clients(vp, 2, 2, 3)
def clients_3w(vp): clients(vp, 2, 3, 2)
def veh_limits(vp): vehicles(vp, "vehicles_max_distance vehicles_max_duration", 2)
def veh_costs(vp): vehicles(vp, "vehicles_fixed_cost vehicles_unit_distance_cost", 2)
def veh_load(vp): vehicles(vp, "capacity vehicles_max_reloads", 2)
def veh_depot(vp): vehicles(vp, "vehicles_depot vehicles_reload_depot", 2, depots=2, windows=True)
def veh_depot3(vp): vehicles(vp, "vehicles_depot capacity", 3, depots=2, windows=True)
def veh_3(vp): vehicles(vp, "capacity vehicles_fixed_cost", 3)
def veh_all(vp): vehicles(vp, " ".join(k for k in VEHICLE if k not in ("vehicles_depot", "vehicles_reload_depot")), 2)
def prof_2(vp): profiles(vp, 1, 2, 2)
def prof_2d(vp): profiles(vp, 2, 2, 2)
def prof_3(vp): profiles(vp, 1, 3, 2)
def groups_3(vp): groups(vp, 3, 1, True)
def groups_4(vp): groups(vp, 4, 2, False)
def ship_1(vp): shipments(vp, 1, 2, True)
def ship_2(vp): shipments(vp, 2, 2, True)
def ship_3(vp): shipments(vp, 2, 3, True)
def round_0(vp): rounding(vp, ["round", "trunc", "dimacs", "exact", "none"][vp.choose("name", 5)], 0)
def round_1(vp): rounding(vp, ["round", "trunc", "dimacs", "exact", "none"][vp.choose("name", 5)], 1)
def round_2(vp): rounding(vp, ["round", "trunc", "dimacs", "exact", "none"][vp.choose("name", 5)], 2)
def sol_clients(vp): solution(vp, False)
def sol_ships(vp): solution(vp, True)
