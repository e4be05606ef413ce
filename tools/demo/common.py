"""Random small instances and independent evaluation, for demonstrations."""
import random
import sys

import numpy as np

from pyvrp import (Activity, ActivityType, Client, ClientGroup, CostEvaluator, Depot, Location, ProblemData,
                   RandomNumberGenerator, Route, Shipment, Solution, VehicleType)
from pyvrp.search import _search as S

BIG = int(np.iinfo(np.int64).max)


def instance(rnd, **kw):
    while True:
        try:
            return attempt(rnd, **kw)
        except ValueError:
            pass  # for instance, a depot and vehicle without common window


def attempt(rnd, nc=3, ns=1, nd=2, dims=1, group=False, optional=True, windows=True, release=True, unlimited=0.0,
             reload=True, nveh=2, profiles=2):
    n = nc + 2 * ns + nd
    R = lambda a, b: rnd.randint(a, b)
    late = lambda: BIG if rnd.random() < unlimited else R(10, 60)

    def tw():
        if not windows or rnd.random() < 0.3:
            return dict(tw_early=0, tw_late=BIG)
        e = R(0, 40)
        return dict(tw_early=e, tw_late=e + R(0, 30))

    locs = [Location(0, 0) for _ in range(n)]
    order = list(range(n))
    rnd.shuffle(order)
    k = iter(order)
    dks = [next(k) for _ in range(nd)]
    depots = [Depot(d, service_duration=R(0, 4), **tw()) for d in dks]
    release = release and min(20, *(d.tw_late for d in depots))  # not after a depot closes
    clients = []
    for i in range(nc):
        req = not (optional and rnd.random() < 0.5)
        g = 0 if group and i < 2 else None
        clients.append(mk_client(next(k), R, dims, tw(), req and g is None, g, release))
    ships = []
    for _ in range(ns):
        a, b = tw(), tw()
        ships.append(Shipment(next(k), next(k), a["tw_early"], a["tw_late"], R(0, 5), b["tw_early"], b["tw_late"], R(0, 5),
                              amount=[R(0, 5) for _ in range(dims)], prize=R(0, 30), required=not (optional and rnd.random() < .5)))
    vts = []
    for t in range(2):
        e = R(0, 10)
        shift = late()
        vts.append(VehicleType(nveh, [R(0, 8) for _ in range(dims)], R(0, nd - 1), R(0, nd - 1), fixed_cost=R(0, 10), tw_early=e,
                               tw_late=e + R(0, 80) if windows else BIG, shift_duration=shift, max_distance=late(),
                               unit_distance_cost=R(0, 2), unit_duration_cost=R(0, 2), profile=R(0, profiles - 1),
                               initial_load=[R(0, 2) for _ in range(dims)], reload_depots=list(range(nd)) if reload else [],
                               max_reloads=R(0, 2), max_overtime=R(0, 10) if shift < BIG else 0, unit_overtime_cost=R(0, 3)))
    mats = lambda: [np.array([[0 if i == j else R(0, 20) for j in range(n)] for i in range(n)]) for _ in range(profiles)]
    groups = [ClientGroup([0, 1], required=rnd.random() < .5)] if group else []
    return ProblemData(locs, clients, depots, vts, mats(), mats(), groups=groups, shipments=ships)


def mk_client(loc, R, dims, tw, req, g, release):
    rel = min(R(0, release), tw["tw_late"]) if release else 0
    return Client(loc, delivery=[R(0, 5) for _ in range(dims)], pickup=[R(0, 5) for _ in range(dims)], service_duration=R(0, 5),
                  release_time=rel, prize=R(0, 30), required=req, group=g, **tw)


C = lambda i: Activity(ActivityType.CLIENT, i)
D = lambda i: Activity(ActivityType.DEPOT, i)
P = lambda i: Activity(ActivityType.PICKUP, i)
L = lambda i: Activity(ActivityType.DELIVERY, i)


def plan(data, rnd, leave=0.3):
    """A random well-formed plan: list of (vehicle type, activities)."""
    trips = [[] for _ in range(rnd.randint(1, 4))]
    used = set()
    for i in rnd.sample(range(data.num_clients), data.num_clients):
        g = data.client(i).group
        if rnd.random() < leave or (g is not None and g in used):
            continue
        used.add(g)
        t = rnd.choice(trips)
        t.insert(rnd.randint(0, len(t)), C(i))
    for i in range(data.num_shipments):
        if rnd.random() < leave:
            continue
        t = rnd.choice(trips)
        a = rnd.randint(0, len(t))
        t.insert(a, P(i))
        t.insert(rnd.randint(a + 1, len(t)), L(i))
    routes = []
    avail = [vt for vt in range(data.num_vehicle_types) for _ in range(data.vehicle_type(vt).num_available)]
    rnd.shuffle(avail)
    trips = [t for t in trips if t]
    while trips and avail:
        vt = avail.pop()
        acts = trips.pop()
        v = data.vehicle_type(vt)
        for _ in range(min(v.max_reloads, 2) if v.reload_depots else 0):
            if trips and rnd.random() < .6:
                acts = acts + [D(rnd.choice(list(v.reload_depots)))] + trips.pop()
        routes.append((vt, acts))
    return routes


def solution(data, routes):
    return Solution(data, [Route(data, acts, vt) for vt, acts in routes])


def die(msg):
    print("DEMO FAILS:", msg)
    sys.exit(1)
