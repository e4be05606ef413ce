"""The modelling interface: what it hands to the problem data."""

import warnings

import numpy

import load
import sym
from sym import both, either, ite, negate

INT_MAX = 2**63 - 1
MAX_SIZE = None


class Np:
    """numpy, with arrays that can hold symbolic values."""

    def __getattr__(self, name):
        return getattr(numpy, name)

    def full(self, shape, fill_value, dtype=None, **k):
        return numpy.full(shape, fill_value, dtype=object)

    def zeros(self, shape, dtype=None, **k):
        return numpy.full(shape, 0, dtype=object)

    def ones(self, shape, dtype=None, **k):
        return numpy.full(shape, 1, dtype=object)

    def empty(self, shape, dtype=None, **k):
        return numpy.full(shape, 0, dtype=object)

    def array(self, obj, dtype=None, **k):
        return numpy.array(obj, dtype=object)

    def asarray(self, obj, dtype=None, **k):
        return numpy.asarray(obj, dtype=object)

    def full_like(self, a, fill_value, dtype=None, **k):
        return numpy.full(a.shape, fill_value, dtype=object)

    def zeros_like(self, a, dtype=None, **k):
        return numpy.full(a.shape, 0, dtype=object)


class Record(load.Model):
    """Keeps what it was made from. Objects made from equal values compare equal."""

    PARAMS = ()

    def __init__(self, *args, **kw):
        kw = {**dict(zip(self.PARAMS, args)), **kw}
        self.__dict__["kw"] = kw
        for k, v in kw.items():
            self.__dict__[k] = v

    def __eq__(self, other):
        return type(self) is type(other)

    __hash__ = object.__hash__


class Location(Record):
    PARAMS = ("x", "y")


class Client(Record):
    PARAMS = ("location", "delivery", "pickup", "service_duration", "tw_early", "tw_late", "release_time", "prize",
              "required", "group")


class Depot(Record):
    PARAMS = ("location", "tw_early", "tw_late", "service_duration")


class Shipment(Record):
    PARAMS = ("pickup_location", "delivery_location", "pickup_tw_early", "pickup_tw_late", "pickup_service_duration",
              "delivery_tw_early", "delivery_tw_late", "delivery_service_duration", "amount", "prize", "required")


class VehicleType(Record):
    PARAMS = ("num_available", "capacity", "start_depot", "end_depot", "fixed_cost", "tw_early", "tw_late",
              "shift_duration", "max_distance", "unit_distance_cost", "unit_duration_cost", "profile", "start_late",
              "initial_load", "reload_depots", "max_reloads", "max_overtime", "unit_overtime_cost")


class ClientGroup(load.Model):
    def __init__(self, clients=(), required=True, *, name=""):
        self.clients, self.required, self.name, self.mutually_exclusive = list(clients), required, name, True

    def add_client(self, client):
        self.clients.append(client)

    def clear(self):
        self.clients.clear()

    def __eq__(self, other):
        return isinstance(other, ClientGroup)

    __hash__ = object.__hash__


class ProblemData(load.Model):
    PARAMS = ("locations", "clients", "depots", "vehicle_types", "distance_matrices", "duration_matrices", "groups",
              "shipments")

    def __init__(self, *args, **kw):
        self.kw = {"groups": [], "shipments": [], **dict(zip(self.PARAMS, args)), **kw}
        self.num_locations = len(self.kw["locations"])
        self.num_profiles = len(self.kw["distance_matrices"])

    def locations(self):
        return list(self.kw["locations"])

    def clients(self):
        return list(self.kw["clients"])

    def depots(self):
        return list(self.kw["depots"])

    def vehicle_types(self):
        return list(self.kw["vehicle_types"])

    def groups(self):
        return list(self.kw["groups"])

    def shipments(self):
        return list(self.kw["shipments"])

    def distance_matrices(self):
        return list(self.kw["distance_matrices"])

    def duration_matrices(self):
        return list(self.kw["duration_matrices"])

    def distance_matrix(self, profile):
        return self.kw["distance_matrices"][profile]

    def duration_matrix(self, profile):
        return self.kw["duration_matrices"][profile]


def module():
    core = {c.__name__: c for c in (Location, Client, Depot, Shipment, VehicleType, ClientGroup, ProblemData)}
    load.fresh(core=core, stubs={"pyvrp.solve": {"SolveParams": type("SolveParams", (), {})}})
    m = load.get("pyvrp.Model")
    load.sym_builtins(m)
    m.np = Np()
    return m


def edges(vp, locs, nprofiles, n):
    m = module()
    const = load.get("pyvrp.constants")
    model = m.Model()
    # Adding a profile before or after the edges makes no difference.
    ls = [model.add_location(1, 1) for _ in range(locs)]  # all equal, but not identical
    ps = [model.add_profile() for _ in range(nprofiles)]
    given = []
    for k in range(n):
        i, j = vp.choose(f"from_{k}", locs), vp.choose(f"to_{k}", locs)
        p = vp.choose(f"profile_{k}", nprofiles + 1) - 1 if nprofiles else -1
        d, t = [0 if i == j else vp.int(f"{x}_{k}", lo, lo + 10**9) for x, lo in (("distance", 0), ("duration", 10**9 + 1))]
        omit = vp.choose(f"no_duration_{k}", 2) if k == 0 else 0
        args = (d,) if omit else (d, t)
        if p >= 0 and vp.choose(f"direct_{k}", 2) if k == 0 else False:
            ps[p].add_edge(ls[i], ls[j], *args)
        elif p >= 0:
            model.add_edge(ls[i], ls[j], *args, profile=ps[p])
        else:
            model.add_edge(ls[i], ls[j], *args)
        given.append((i, j, p, d, 0 if omit else t))
    if vp.choose("default_missing", 2):
        miss, data = const.MAX_VALUE, model.data()
    else:
        miss = vp.int("missing", -(10**9), INT_MAX)
        data = model.data(miss)
        miss = ite(miss > const.MAX_VALUE, const.MAX_VALUE, miss)
    dists, durs = data.distance_matrices(), data.duration_matrices()
    vp.check(len(dists) == len(durs) == max(nprofiles, 1), "one matrix of each kind per profile")
    for p in range(len(dists)):
        vp.check(dists[p].shape == durs[p].shape == (locs, locs), "the matrices' shape")
        for i in range(locs):
            for j in range(locs):
                own = [g for g in given if g[:3] == (i, j, p) and nprofiles]
                base = [g for g in given if g[:3] == (i, j, -1)]
                last = (base + own)[-1] if base + own else None
                dw, tw = (last[3], last[4]) if last else (0, 0) if i == j else (miss, miss)
                vp.check(both(dists[p][i, j] == dw, durs[p][i, j] == tw),
                         "an edge has the values last given for its profile, then for all, else the missing value")
    vp.check(all(a is b for a, b in zip(data.locations(), ls)) and len(data.locations()) == locs, "all locations, in order")
    vp.cover("end")


def edge(vp):
    """Which edges are accepted, and when a warning is due."""
    m = module()
    const = load.get("pyvrp.constants")
    model = m.Model()
    ls = [model.add_location(1, 1) for _ in range(2)]
    prof = model.add_profile()
    i, j, own = vp.choose("from", 2), vp.choose("to", 2), vp.choose("own", 2)
    d, t = vp.int("distance", -(10**9), INT_MAX), vp.int("duration", -(10**9), INT_MAX)
    ok = both(d >= 0, t >= 0, either(i != j, both(d == 0, t == 0)))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            e = model.add_edge(ls[i], ls[j], d, t, prof if own else None)
        except ValueError:
            vp.check(negate(ok), "valid edges are accepted")
            data = model.data()
            vp.check(both(data.distance_matrix(0)[i, j] == (0 if i == j else const.MAX_VALUE),
                          data.duration_matrix(0)[i, j] == (0 if i == j else const.MAX_VALUE)), "a rejected edge has no effect")
            vp.cover("rejected")
            return
    vp.check(ok, "negative edges and self loops with a value are rejected")
    vp.check(bool(ws) == either(d > const.MAX_VALUE, t > const.MAX_VALUE), "a warning exactly for very large values")
    vp.check(e.frm is ls[i] and e.to is ls[j], "the edge's locations")
    vp.check(both(e.distance == d, e.duration == t), "the edge's values")
    data = model.data()
    vp.check(both(data.distance_matrix(0)[i, j] == d, data.duration_matrix(0)[i, j] == t), "the data has the edge")
    vp.cover("end")


def fields(vp, obj, want, msg):
    for k, v in want.items():
        if k not in obj.kw:
            raise sym.Unsupported(f"{k} not given explicitly")
        g = obj.kw[k]
        if isinstance(v, list):
            vp.check(isinstance(g, (list, tuple, numpy.ndarray)) and len(g) == len(v), f"{msg}: {k}")
            for a, b in zip(g, v):
                vp.check(a == b, f"{msg}: {k}")
        elif v is None or g is None:
            vp.check(g is None and v is None, f"{msg}: {k}")
        else:
            vp.check(g == v, f"{msg}: {k}")


def amount(vp, name):
    """A number, or a list of them; and what it stands for."""
    kind = vp.choose(f"{name}_kind", 3)
    a, b = vp.int(f"{name}_0", 0, 10**9), vp.int(f"{name}_1", 0, 10**9)
    return [(a, [a]), ([a, b], [a, b]), ([], [])][kind]


def V(vp, name):
    return vp.int(name, 0, 10**9)


def clients(vp):
    m = module()
    model = m.Model()
    ls = [model.add_location(0, 0) for _ in range(2)] + [Location(0, 0)]
    gs = [model.add_client_group(required=bool(vp.choose("group_required", 2))), model.add_client_group(), ClientGroup()]
    if vp.choose("earlier", 2):
        model.add_client(ls[0], required=False, group=gs[1])
    before = len(model.clients)
    at, grp = vp.choose("location", 3), vp.choose("group", 4) - 1
    req = bool(vp.choose("required", 2))
    dv, dw = amount(vp, "delivery")
    pv, pw = amount(vp, "pickup") if at == 0 else (3, [3])
    want = dict(service_duration=V(vp, "service"), tw_early=V(vp, "early"), tw_late=V(vp, "late"),
                release_time=V(vp, "release"), prize=V(vp, "prize"), required=req, name="n")
    try:
        c = model.add_client(ls[at], dv, pv, **want, group=None if grp < 0 else gs[grp])
    except ValueError:
        vp.check(at == 2 or grp == 2 or (req and grp >= 0), "clients that fit the model are accepted")
        vp.check(len(model.clients) == before, "a rejected client is not added")
        vp.check(sum(len(g.clients) for g in gs) == before, "a rejected client is in no group")
        vp.cover("rejected")
        return
    vp.check(not (at == 2 or grp == 2 or (req and grp >= 0)), "unknown locations and groups and required members are rejected")
    fields(vp, c, dict(want, location=at, delivery=dw, pickup=pw, group=None if grp < 0 else grp), "client")
    vp.check(model.clients[before] is c and len(model.clients) == before + 1, "the client is added last")
    for i in (0, 1):
        vp.check(gs[i].clients == ([0] if i == 1 and before else []) + ([before] if grp == i else []), "the group's members")
    data = model.data()
    vp.check(data.clients()[before] is c and len(data.clients()) == before + 1, "the data has the clients")
    vp.check([id(g) for g in data.groups()] == [id(g) for g in gs[:2]], "the data has the groups")
    vp.cover("end")


def others(vp):
    m = module()
    model = m.Model()
    ls = [model.add_location(0, 0) for _ in range(2)] + [Location(0, 0)]
    what = vp.choose("what", 2)
    i, j = vp.choose("location", 3), vp.choose("other", 3)
    try:
        if what == 0:
            want = dict(tw_early=V(vp, "early"), tw_late=V(vp, "late"), service_duration=V(vp, "service"), name="n")
            got = model.add_depot(ls[i], **want)
            want["location"] = i
            bad = i == 2
            where = model.depots
        else:
            av, aw = amount(vp, "amount")
            want = {k: V(vp, k) for k in ("pickup_tw_early", "pickup_tw_late", "pickup_service_duration",
                                          "delivery_tw_early", "delivery_tw_late", "delivery_service_duration", "prize")}
            want.update(required=bool(vp.choose("required", 2)), name="n")
            got = model.add_shipment(ls[i], ls[j], amount=av, **want)
            want.update(amount=aw, pickup_location=i, delivery_location=j)
            bad = i == 2 or j == 2
            where = model.shipments
    except ValueError:
        vp.check(i == 2 or (what == 1 and j == 2), "known locations are accepted")
        vp.check(not model.depots and not model.shipments, "what is rejected is not added")
        vp.cover("rejected")
        return
    vp.check(not bad, "unknown locations are rejected")
    fields(vp, got, want, "depot" if what == 0 else "shipment")
    vp.check(len(where) == 1 and where[0] is got, "it is added")
    data = model.data()
    vp.check([id(x) for x in (data.depots() if what == 0 else data.shipments())] == [id(got)], "the data has it")
    vp.cover("end")


def vehicles(vp):
    m = module()
    model = m.Model()
    loc = model.add_location(0, 0)
    ds = [model.add_depot(loc) for _ in range(2)] + [Depot(0)]
    ps = [model.add_profile() for _ in range(2)]
    ps.append(m.Profile())
    s, e, p = vp.choose("start", 4) - 1, vp.choose("end", 4) - 1, vp.choose("profile", 4) - 1
    reload = [[], [0], [1, 0], [2], [0, 2]][vp.choose("reload", 5)]
    few = s > 0 or e > 0 or p > 0
    cv, cw = (V(vp, "capacity"),) * 2 if few else amount(vp, "capacity")
    cw = [cw] if few else cw
    iv, iw = ([], []) if few else amount(vp, "initial")
    want = {k: V(vp, k) for k in ("num_available", "fixed_cost", "tw_early", "tw_late", "shift_duration", "max_distance",
                                  "unit_distance_cost", "unit_duration_cost", "start_late", "max_reloads",
                                  "max_overtime", "unit_overtime_cost")}
    want["name"] = "n"
    pick = lambda xs, i: None if i < 0 else xs[i]
    bad = s == 2 or e == 2 or p == 2 or 2 in reload
    try:
        v = model.add_vehicle_type(capacity=cv, initial_load=iv, start_depot=pick(ds, s), end_depot=pick(ds, e),
                                   profile=pick(ps, p), reload_depots=[ds[i] for i in reload], **want)
    except ValueError:
        vp.check(bad, "known depots and profiles are accepted")
        vp.check(not model.vehicle_types, "what is rejected is not added")
        vp.cover("rejected")
        return
    vp.check(not bad, "unknown depots and profiles are rejected")
    fields(vp, v, dict(want, capacity=cw, initial_load=iw, start_depot=max(s, 0), end_depot=max(e, 0), profile=max(p, 0),
                       reload_depots=reload), "vehicle type")
    vp.check(len(model.vehicle_types) == 1 and model.vehicle_types[0] is v, "it is added")
    vp.check([id(x) for x in model.data().vehicle_types()] == [id(v)], "the data has it")
    vp.cover("end")


def defaults(vp):
    """What is left out has the documented default."""
    m = module()
    size = load.get("pyvrp.constants").MAX_SIZE
    model = m.Model()
    loc = model.add_location(0, 0)
    fields(vp, model.add_client(loc),
           dict(location=0, delivery=[], pickup=[], service_duration=0, tw_early=0, tw_late=INT_MAX, release_time=0,
                prize=0, required=True, group=None, name=""), "default client")
    fields(vp, model.add_depot(loc), dict(location=0, tw_early=0, tw_late=INT_MAX, service_duration=0, name=""),
           "default depot")
    fields(vp, model.add_shipment(loc, loc),
           dict(pickup_location=0, delivery_location=0, pickup_tw_early=0, pickup_tw_late=INT_MAX,
                pickup_service_duration=0, delivery_tw_early=0, delivery_tw_late=INT_MAX, delivery_service_duration=0,
                amount=[], prize=0, required=True, name=""), "default shipment")
    fields(vp, model.add_vehicle_type(),
           dict(num_available=1, capacity=[], start_depot=0, end_depot=0, fixed_cost=0, tw_early=0, tw_late=INT_MAX,
                shift_duration=INT_MAX, max_distance=INT_MAX, unit_distance_cost=1, unit_duration_cost=0, profile=0,
                start_late=None, initial_load=[], reload_depots=[], max_reloads=size, max_overtime=0,
                unit_overtime_cost=0, name=""), "default vehicle type")
    vp.check(model.add_client_group().required is True, "groups are required by default")
    vp.cover("end")


def from_data(vp, locs, profiles):
    """A model made from data gives that data again, and can be extended."""
    m = module()
    ls = [Location(0, 0) for _ in range(locs)]

    def matrix(n, p):
        a = numpy.full((locs, locs), 0, dtype=object)
        for i in range(locs):
            for j in range(locs):
                if i != j:
                    lo = 0 if n == "distance" else 10**9 + 1
                    a[i, j] = vp.int(f"{n}_{p}_{i}_{j}", lo, lo + 10**9)
        return a

    ds, ts = [[matrix(n, p) for p in range(profiles)] for n in ("distance", "duration")]
    parts = dict(locations=ls, clients=[Client(0), Client(1)], depots=[Depot(0)], vehicle_types=[VehicleType(1), VehicleType(2)],
                 groups=[ClientGroup(), ClientGroup()], shipments=[Shipment(0, 1)])
    data = ProblemData(**parts, distance_matrices=ds, duration_matrices=ts)
    model = m.Model.from_data(data)
    again = model.data(vp.int("missing", 0, 10**9))
    for k, v in parts.items():
        vp.check([id(x) for x in again.kw[k]] == [id(x) for x in v], f"the same {k}")
    vp.check(again.num_profiles == profiles, "the same profiles")
    for p in range(profiles):
        for i in range(locs):
            for j in range(locs):
                vp.check(both(again.distance_matrix(p)[i, j] == ds[p][i, j], again.duration_matrix(p)[i, j] == ts[p][i, j]),
                         "the same distances and durations")
    p = vp.choose("profile", profiles)
    new = vp.int("new", 0, 10**9)
    model.add_edge(model.locations[1], model.locations[0], new, profile=model.profiles[p])
    more = model.data()
    for q in range(profiles):
        vp.check(more.distance_matrix(q)[1, 0] == (new if p == q else ds[q][1, 0]), "a changed edge")
        vp.check(more.distance_matrix(q)[0, 1] == ds[q][0, 1], "the other edges stay")
    vp.cover("end")


def edges_2(vp): edges(vp, 2, 2, 2)
def edges_1p(vp): edges(vp, 2, 1, 3)
def edges_np(vp): edges(vp, 2, 0, 3)
def edges_3(vp): edges(vp, 3, 1, 2)
def edges_33(vp): edges(vp, 2, 2, 3)
def from_1(vp): from_data(vp, 2, 1)
def from_2(vp): from_data(vp, 3, 2)
