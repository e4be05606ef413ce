"""The properties, and which symbolic jobs decide each of them.

This is the single source of properties.jsonl and MANIFEST.json (see gen.py).
"""

import json
import re
from pathlib import Path

PROPS = {}


def cpp(harness, entries, tier="quick", **kw):
    return [dict(kind="cpp", harness=harness, entry=f"h_{e}", tier=tier, **kw) for e in entries.split()]


def py(module, entries, tier="quick", **kw):
    return [dict(kind="py", module=module, entry=e, tier=tier, **kw) for e in entries.split()]


def prop(id, title, statement, over, forall, why, files, mechanism, observe, jobs, bounds, explanation,
         outside, assumptions=(), level="other"):
    PROPS[id] = dict(
        text=dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=forall),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=[observe],
                hook_needed=None,
            ),
        ),
        jobs=jobs,
        bounds=bounds,
        explanation=explanation,
        outside=outside,
        assumptions=list(assumptions),
        level=level,
    )


CPP = "pyvrp/cpp/"
ENGINE = (
    "The C++ core is compiled to LLVM bitcode from /repo's current tree and executed symbolically; "
    "z3 decides every branch and every assertion for all values of the symbolic inputs. "
)
ALLOC = "memory allocation succeeds"
NDEBUG = "the release configuration is checked (C++ asserts compiled out)"

prop(
    "P01",
    "Route timing equals the best schedule of its visits",
    "For every route, the reported duration, time warp, start time, end time, slack, overtime and duration cost are those "
    "of serving its visits in order from the best departure time: least time warp first, then least duration, then earliest. "
    "The schedule the route reports replays to exactly those visits, start and end times, waits and time warps.",
    ["inputs"],
    "all travel and service durations, time windows, release times, shift limits and latest start times",
    "Unit tests fix a handful of instances; the optimality over departure times involves every combination of windows, release "
    "times and shift limits, and wrong results appear only for particular orderings of those values.",
    [CPP + "Route.cpp", CPP + "Route.h", CPP + "DurationSegment.h", CPP + "DurationSegment.cpp"],
    [("route evaluation", CPP + "Route.cpp:Route::Route, makeSchedule"),
     ("segment merging", CPP + "DurationSegment.h:DurationSegment::merge, finaliseBack, finaliseFront")],
    "Route.duration/time_warp/start_time/end_time/slack/overtime/duration_cost/release_time/schedule",
    cpp("route_time", "time_trip21", cost=35)
    + cpp("route_time", "time_c0 time_c1 time_c2 time_c3 time_d2 time_notw time_nodepottw time_trip11 time_trip01 "
          "time_trip10 time_ship1 sched_c0 sched_c1 sched_c2 sched_c3 sched_c4 sched_d2 sched_notw sched_nodepottw "
          "sched_trip11 sched_trip21 sched_trip12 sched_trip101 sched_trip111 sched_trip22 sched_trip01 sched_trip10 "
          "sched_ship1 sched_ship2")
    + cpp("route_time", "time_trip111", tier="thorough", cost=150, query_timeout=900, timeout=3600)
    + cpp("route_time", "time_c4 time_trip12 time_trip101 time_trip22 time_ship2", tier="thorough", cost=60, query_timeout=300),
    "quick: routes of 0-3 clients, 1-2 trips (up to 2+1 clients) and one shipment around a client; schedules up to 4 clients, "
    "3 trips and two shipments; thorough: 4 clients, trips 1+2, 2+2, 1+0+1, 1+1+1, two shipments. All durations, services, windows, "
    "release times, shift durations and overtime limits symbolic in [0, 1e9], departure times in [0, 2e9]",
    ENGINE + "An independent step-by-step simulation of leaving at an arbitrary symbolic time is compared with the route's values.",
    "longer routes, values above 1e9, several duration profiles at once",
    [ALLOC, NDEBUG, "problem data is accepted by the real constructors (empty time windows are excluded)"],
)

prop(
    "P02",
    "Route distance, load, prize and cost figures follow from its visits",
    "For every route, distance, excess distance, distance cost, collected prizes, fixed cost, pickups, deliveries, loads and excess "
    "load per dimension equal what visiting its activities in order, trip by trip, implies for the given problem data.",
    ["inputs"],
    "all distances, demands, capacities, initial loads, prizes and visit sequences over clients, shipments and reload depots",
    "Tests sample fixed sequences; the load on board depends on the interleaving of deliveries, pickups and reloads, and "
    "errors only appear when the peak falls on a particular leg.",
    [CPP + "Route.cpp", CPP + "LoadSegment.h", CPP + "LoadSegment.cpp"],
    [("route evaluation", CPP + "Route.cpp:Route::Route"), ("load merging", CPP + "LoadSegment.h:merge, finalise")],
    "Route.distance/excess_distance/distance_cost/prizes/pickup/delivery/excess_load/...",
    cpp("route_stats", "stats_len0 stats_len1 stats_len2 stats_len3 stats_len3b stats_len4 stats_len4s stats_len4s1")
    + cpp("route_stats", "stats_len5 stats_len6s", tier="thorough", cost=300, timeout=3600),
    "every well-formed sequence of up to 4 (thorough: 5, and 6 of shipments) visits over a small alphabet of clients, shipments and "
    "reload depots; all distances, demands, capacities and prizes symbolic in [0, 1e9]",
    ENGINE + "An independent trip-by-trip accounting of distance and load on board is the oracle.",
    "longer routes, more than two load dimensions, values above 1e9",
    [ALLOC, NDEBUG],
)

prop(
    "P03",
    "Only well-formed routes and solutions can be constructed",
    "A route is accepted exactly when its vehicle type and all its activities exist, each shipment is picked up once before it is delivered once within one "
    "trip, and the number of trips is allowed; a solution exactly when no client or shipment is visited twice, no group has two visited "
    "members, no route is empty, and no more vehicles are used than available. Anything else raises an error.",
    ["inputs"],
    "all activity sequences (including non-existing activities) and all lists of routes, vehicle types and availabilities",
    "Tests list a few rejected examples; acceptance must be exact for every sequence.",
    [CPP + "Route.cpp", CPP + "Solution.cpp"],
    [("route validation", CPP + "Route.cpp:Route::validate"), ("solution validation", CPP + "Solution.cpp:Solution::Solution")],
    "Route(...), Solution(...) constructors",
    cpp("validate", "vroute_type vroute_1 vroute_2 vroute_3 vroute_4 vroute_4s vroute_5d vsol_1 vsol_2 vsol_2g vsol_2s vsol_3 vsol_3s",
        covers=["accepted", "rejected"])
    + cpp("validate", "vroute_6s", tier="thorough", covers=["accepted", "rejected"], cost=100, timeout=3600),
    "routes: any 1-4 activities (5 over depots and one shipment; thorough: 6 over depots and two shipments) of symbolic type and symbolic "
    "index in the whole non-negative 64-bit range, any vehicle type index; solutions: up to 3 routes with up to 3 visits, two vehicle types with 1-2 vehicles",
    ENGINE + "An independent recogniser of well-formed sequences is the oracle; acceptance must agree in both directions.",
    "longer sequences",
    [ALLOC, NDEBUG],
)

prop(
    "P04",
    "Solution totals, missing counts and feasibility follow from its routes",
    "A solution's totals are the sums over its routes; its unplanned list holds exactly the clients and shipments not visited; the "
    "missing counts are exactly the required clients, shipments and groups not served. It is complete iff nothing required is missing and feasible "
    "iff complete and without excess load, excess distance and time warp.",
    ["inputs"],
    "all problem data values and all assignments of clients and shipments to vehicles",
    "Feasibility is what users act on; tests check fixed solutions, not every combination of requirement and violation.",
    [CPP + "Solution.cpp", CPP + "Solution.h"],
    [("aggregation", CPP + "Solution.cpp:Solution::evaluate"), ("feasibility", CPP + "Solution.cpp:isFeasible, isComplete")],
    "Solution.distance/.../is_feasible/is_complete/unplanned/num_missing_*",
    cpp("solution", "totals_any totals_any2 totals_time totals_trips"),
    "3-4 clients (two in a group), 1-2 shipments, two vehicle types, two routes of any visits, 0-2 load dimensions; all data values "
    "symbolic in [0, 1e9], required flags symbolic",
    ENGINE + "Sums and set differences computed independently from the plan are the oracle.",
    "more routes, longer routes, more than one group",
    [ALLOC, NDEBUG],
)

prop(
    "P05",
    "Objective and penalised cost are exactly as documented",
    "The cost of a feasible solution is distance, duration, overtime and fixed vehicle costs plus uncollected prizes; the cost of an infeasible solution is the "
    "maximum value. The penalised cost is that objective plus excess load, distance and time warp weighted with the "
    "penalties, rounded down per route and dimension, whether or not the solution is feasible.",
    ["inputs"],
    "all problem data values, plans and violations, for several penalty settings",
    "Tests compare a few totals; cost terms that coincide or vanish on those instances hide errors.",
    [CPP + "CostEvaluator.h", CPP + "CostEvaluator.cpp"],
    [("cost evaluation", CPP + "CostEvaluator.h:penalisedCost, cost, loadPenalty, twPenalty, distPenalty")],
    "CostEvaluator.cost, CostEvaluator.penalised_cost",
    cpp("solution", "obj_any obj_time obj_frac obj_zero"),
    "2-3 clients, 0-1 shipment, one group, two vehicle types, at most two routes; all data values symbolic in [0, 1e9]; penalties "
    "from a fixed set of integral, fractional and zero values",
    ENGINE + "The documented formula evaluated over independently computed quantities is the oracle.",
    "other penalty values (floating point is evaluated exactly but penalties are concrete), overflowing values",
    [ALLOC, NDEBUG, "penalties are concrete"],
)

prop(
    "P06",
    "Solutions are equal exactly when they have the same routes",
    "Two solutions of one instance compare equal if and only if they consist of the same routes (same vehicle type and same visits in the same order), "
    "in whatever order the routes are listed; equality is symmetric and equal solutions have equal hashes.",
    ["inputs"],
    "all pairs of solutions over a catalogue of routes and all problem data values",
    "Equality is decided through aggregate figures and neighbour lists; coincidences between them are rare and never occur on test data.",
    [CPP + "Solution.cpp", CPP + "Solution.h", CPP + "Route.cpp"],
    [("equality", CPP + "Solution.cpp:Solution::operator==, Route.cpp:Route::operator=="), ("hash", CPP + "Solution.cpp:std::hash<Solution>")],
    "Solution.__eq__, Solution.__hash__, Route.__eq__",
    cpp("solution", "eq_clients") + cpp("solution", "eq_ships", cost=60),
    "all pairs of solutions with up to two routes over two clients, one shipment, one reload depot and two vehicle types; distances, "
    "durations, prizes and fixed costs symbolic in [0, 1e9]",
    ENGINE + "The identity of the chosen routes is the oracle.",
    "more than two routes, routes of more than three visits",
    [ALLOC, NDEBUG],
)

SEARCH = CPP + "search/"
FEATS = ("_load: two load dimensions' worth of demands and capacities, _time: durations and shift limits, _win: additionally client and "
         "vehicle time windows, _depot: additionally depot windows and services, _rel: release times; values symbolic in [0, 1e9] (distances "
         "throughout), penalties concrete")


TIMINGS = json.loads((Path(__file__).resolve().parent / "timings.json").read_text())


def auto(harness, pattern, quick=15, thorough=300, **kw):
    """Entries of a harness by measured time (tools/timing.py): those within `quick`
    seconds run in both tiers, those within `thorough` only in the thorough tier.
    Entries that did not finish are not claimed."""
    jobs = []
    for e, t in sorted(TIMINGS[harness].items()):
        if not re.fullmatch(pattern, e) or t is None or t > thorough:
            continue
        k = dict(cost=t, **kw)
        if t > 20:
            k.update(timeout=3600, query_timeout=300)
        jobs += cpp(harness, e, "quick" if t <= quick else "thorough", **k)
    return jobs


P09JOBS = auto("search_route", "(?!rel_closed).*", quick=45) + cpp("search_route", "rel_closed")
P10JOBS = (
    auto("ops_exchange", "(relocate1|swap11|swaptails)_(?!cache).*", quick=15)
    + auto("ops_exchange", "(relocate[12]_cache(ship)?|relocate3_cacheship)")
    + auto("ops_exchange", "(relocate2|relocate3|swap21)_(flags2|sole)")
    + auto("ops_exchange", "(relocate[23]|swap21|swap22|swap3.)_(?!cache|flags|sole|reltrip|.*_rel).*", quick=5)
)
P11JOBS = auto("ops_optional", ".*", quick=20)
P12JOBS = auto("ops_shipment", ".*", quick=60)
P13JOBS = auto("ops_depot", ".*", quick=30)
P14JOBS = auto("search_solution", "(?!perturb).*", quick=45)
P15JOBS = (
    cpp("random", "perturb_clients perturb_ships perturb_clients4 perturb_mix perturb_trip perturb_none perturb_range perturb_after", cost=3)
    + cpp("random", "perturb_between", cost=45)
    + cpp("random", "perturb_ship", tier="thorough", cost=150, timeout=3600)
)
P16JOBS = (
    auto("local_search", ".*", quick=30)
    + cpp("random_search", "any_repair any_clients any_group any_ship any_trip any_full any_sym2 any_sym2p any_symgroup any_symship any_symtrip any_four", cost=5)
    + cpp("random_search", "any_fourops", cost=17)
)


prop(
    "P09",
    "The search's incremental route figures equal full recomputation",
    "After any sequence of insertions, removals, swaps and clearing, and an update, the search's route reports the same visits, trips, distance, duration, "
    "load and violation figures as a route built from scratch. The figures it predicts for joining parts of routes and new visits "
    "are exactly those of the route so described.",
    ["inputs", "histories"],
    "all edit sequences, all ways of joining route parts, and all data values",
    "The search never recomputes from scratch; an error in a cached prefix or suffix shows only for particular cut points, trips and data.",
    [SEARCH + "Route.h", SEARCH + "Route.cpp", SEARCH + "ClientSegment.h", SEARCH + "DepotSegment.h", SEARCH + "PickupSegment.h",
     SEARCH + "DeliverySegment.h"],
    [("edits and caching", SEARCH + "Route.cpp:insert, remove, swap, clear, update"),
     ("proposals", SEARCH + "Route.h:Route::Proposal, SegmentBefore, SegmentAfter, SegmentBetween")],
    "search.Route.*, and through the costs used by the operators",
    P09JOBS,
    "any 2-4 edits (insert, remove, swap, clear; also swaps with an unassigned node or another trip) on a route over up to 3 clients, one shipment and a reload depot; proposals from routes "
    "of 2-5 visits (up to 3 trips) and a second route with another profile, every cut point; " + FEATS,
    ENGINE + "The search route is compared with a route of the same visits built from scratch (itself decided by P01 and P02), for every "
    "edit sequence and cut point.",
    "longer edit sequences and routes",
    [ALLOC, NDEBUG],
)

DELTA = ("For every position the evaluated delta is compared with the penalised-cost difference of the solutions before and after "
         "applying the move, each rebuilt from scratch; a move that is declined must not be improving when evaluated "
         "exactly, and structural rules (shipments within a trip, groups, required visits, multiset of visits) are asserted after applying. ")
OPWHY = ("The evaluation is incremental and has many special cases (adjacent nodes, same route, trips, shortcuts that skip cost terms); "
         "tests sample a few positions on fixed instances.")

prop(
    "P10",
    "Exchange moves change the cost by exactly the evaluated amount",
    "Whenever a relocate, swap or tail-exchange move is evaluated as improving, applying it changes the penalised cost of the plan by exactly that amount, and keeps "
    "the same visits and all structural rules intact. An improving move of consecutive visits within a trip that do not overlap or touch, made with no "
    "shipment on board, is proposed for at least one order of the two positions.",
    ["inputs"],
    "all pairs of positions in one or two routes, with trips and shipments, and all data values",
    OPWHY,
    [SEARCH + "Relocate.h", SEARCH + "Swap.h", SEARCH + "SwapTails.cpp", SEARCH + "Route.h", CPP + "CostEvaluator.h"],
    [("evaluation", SEARCH + "Relocate.h, Swap.h, SwapTails.cpp:evaluate"), ("delta cost", CPP + "CostEvaluator.h:deltaCost")],
    "Relocate*/Swap*/SwapTails .evaluate and .apply",
    P10JOBS,
    "two routes of up to 3 visits (4 for one), or one of up to 5, with a reload depot or a shipment in some; two vehicle types with "
    "different profiles, costs and ends; every ordered pair of positions; also with stale evaluation caches; " + FEATS,
    ENGINE + DELTA,
    "longer routes; other penalties; the largest shapes with time windows (listed as thorough or omitted)",
    [ALLOC, NDEBUG, "operator caches start from the first evaluation of the harness"],
)

prop(
    "P11",
    "Moves on optional clients and groups change the cost as evaluated",
    "Whenever inserting, removing or replacing an optional client, or exchanging members of a group, is evaluated as improving, applying it changes the penalised "
    "cost (with uncollected prizes) by exactly that amount; no required client is dropped and no group gets two visits. "
    "An improving move of these kinds is never overlooked.",
    ["inputs"],
    "all candidate clients, positions, groups, prizes and data values",
    OPWHY,
    [SEARCH + "InsertOptionalClient.cpp", SEARCH + "RemoveOptionalClient.cpp", SEARCH + "ReplaceOptionalClient.cpp", SEARCH + "ReplaceGroup.cpp",
     SEARCH + "RelocateAlternative.cpp" ],
    [("evaluation", SEARCH + "InsertOptionalClient.cpp, RemoveOptionalClient.cpp, ReplaceOptionalClient.cpp, ReplaceGroup.cpp: evaluate, apply")],
    "the operators' evaluate and apply",
    P11JOBS,
    "up to 4 clients, two of them in a group, two routes of up to 3 visits, reload depot in some; " + FEATS,
    ENGINE + DELTA,
    "longer routes, larger groups; other penalties",
    [ALLOC, NDEBUG],
)

prop(
    "P12",
    "Moves on shipments change the cost as evaluated and keep pairs intact",
    "Whenever inserting, removing, replacing, relocating or re-sequencing the pickup or delivery of a shipment is evaluated as improving, applying it changes the penalised "
    "cost by exactly that amount, and every shipment is still picked up before it is delivered within one trip. No improving "
    "candidate position is overlooked.",
    ["inputs"],
    "all shipments, all pickup and delivery positions, prizes and data values",
    OPWHY,
    [SEARCH + f for f in ("InsertOptionalShipment.cpp", "RemoveOptionalShipment.cpp", "ReplaceOptionalShipment.cpp", "RelocateShipment.cpp",
                          "RelocatePickup.cpp", "RelocateDelivery.cpp")],
    [("evaluation", SEARCH + "*Shipment.cpp, RelocatePickup.cpp, RelocateDelivery.cpp: evaluate, apply")],
    "the operators' evaluate and apply",
    P12JOBS,
    "one or two shipments and up to 2 clients in two routes of up to 4 visits, reload depot in some, the pickup and delivery at any position of any trip; " + FEATS,
    ENGINE + DELTA,
    "longer routes, more shipments; other penalties",
    [ALLOC, NDEBUG],
)

prop(
    "P13",
    "Moves that add or remove reload visits change the cost as evaluated",
    "Whenever inserting a reload visit together with a relocation, or removing a superfluous one, is proposed, applying it changes the penalised cost "
    "by exactly the evaluated amount; the route never gets more trips than its vehicle allows, and only allowed reload depots are visited.",
    ["inputs"],
    "all positions, reload depots, trip limits and data values",
    OPWHY,
    [SEARCH + "RelocateWithDepot.cpp", SEARCH + "RemoveAdjacentDepot.cpp", SEARCH + "Route.cpp"],
    [("evaluation", SEARCH + "RelocateWithDepot.cpp, RemoveAdjacentDepot.cpp: evaluate, apply")],
    "the operators' evaluate and apply",
    P13JOBS,
    "routes of up to 3 clients and 2 reload visits, two allowed reload depots, trip limits; " + FEATS,
    ENGINE + DELTA,
    "longer routes, more depots; other penalties",
    [ALLOC, NDEBUG],
)

prop(
    "P14",
    "Loading, unloading and inserting in the search keep the plan exact",
    "Loading a solution into the search and unloading it again gives an equal solution, whatever was loaded or edited before. Inserting a missing client or shipment "
    "puts it at a position of least cost increase among the candidates (or leaves it out when that is not improving and not required), and "
    "changes nothing else.",
    ["inputs", "histories"],
    "all solutions, earlier solutions, edits and data values",
    "Stale state from the previous load shows only for particular pairs of solutions.",
    [SEARCH + "Solution.cpp", SEARCH + "Solution.h"],
    [("load and unload", SEARCH + "Solution.cpp:load, unload"), ("insertion", SEARCH + "Solution.cpp:insert")],
    "search results returned to the user; search.Solution",
    P14JOBS,
    "any pair of solutions over 2-3 clients or a client and a shipment with a reload depot and two vehicle types; insertions into two "
    "routes with empty vehicles of both types; " + FEATS,
    ENGINE + "Exhaustive symbolic choice of first and second solution; insertion compared against every candidate position rebuilt from scratch.",
    "more than two routes, longer routes",
    [ALLOC, NDEBUG],
)

prop(
    "P15",
    "Perturbation keeps the plan well-formed for every random stream",
    "Perturbing a plan only removes planned and inserts unplanned clients and whole shipments: nothing is visited twice, and shipments stay within one trip and "
    "in order. The number of changes lies within the configured limits and each of them, like the visits next to it, is marked for further search, for every stream of random numbers.",
    ["inputs", "schedules"],
    "all random draws, all assignments, all perturbation counts",
    "A test follows one seed; rare draws reach states no seed in the suite reaches.",
    [SEARCH + "PerturbationManager.cpp", SEARCH + "PerturbationManager.h"],
    [("perturbation", SEARCH + "PerturbationManager.cpp:perturb")],
    "LocalSearch.__call__ results",
    P15JOBS,
    "2-4 clients, or clients with up to 2 shipments, or trips, planned or not; 0-5 perturbations; every number drawn is a symbolic 32-bit integer or real in [0, 1]; "
    "distances symbolic in some entries (thorough: also with two shipments)",
    ENGINE + "The random number generator is replaced by one whose every draw is a fresh symbolic value.",
    "more visits; more than 5 perturbations",
    [ALLOC, NDEBUG],
)

prop(
    "P16",
    "Local search returns a complete plan that is never worse",
    "Started from any plan, local search returns a well-formed plan that visits everything that must be visited; an exhaustive search from a complete plan never returns one with a "
    "larger penalised cost. When it stops without changes, no operator has an improving move left.",
    ["inputs", "schedules", "histories"],
    "all data values, initial plans and neighbourhoods at the bound, all random search orders",
    "Which moves are tried depends on bookkeeping of what changed since the last test; a skipped or repeated test only shows on "
    "particular cost landscapes.",
    [SEARCH + "LocalSearch.cpp", SEARCH + "LocalSearch.h", SEARCH + "Solution.cpp"],
    [("search loop", SEARCH + "LocalSearch.cpp:operator(), search, applyBinaryOps, ..."),
     ("repair", SEARCH + "LocalSearch.cpp:ensureStructuralFeasibility")],
    "LocalSearch.__call__",
    P16JOBS,
    "2-3 clients, or groups, a shipment, reload depots; two vehicles; data values symbolic in [0, 1e9] restricted to the features named by "
    "the entry; concrete penalties; up to 4 clients and a shipment with every random search order and perturbation (each draw symbolic)",
    ENGINE + "The whole search runs symbolically: every comparison of move costs forks, so every order type of the data is covered.",
    "larger instances, other operator sets",
    [ALLOC, NDEBUG],
)

prop(
    "P08",
    "Joining parts of routes in any grouping gives the same, exact figures",
    "Joining parts of a route gives the duration, time warp, loads and excess of performing them one after the other, starting at the best time, "
    "however the parts are grouped and whether trips have been closed in between. Cost and duration functions given by points or by pieces "
    "take exactly the values described and say truthfully whether they are monotone; sets of flags behave as sets.",
    ["inputs"],
    "all durations, time windows, release times, demands, points, slopes and flags",
    "The search joins parts in orders no test uses; the arithmetic is guarded against overflow by case distinctions that only matter for "
    "particular orderings of values.",
    [CPP + f for f in ("DurationSegment.h", "DurationSegment.cpp", "LoadSegment.h", "LoadSegment.cpp", "PiecewiseLinearFunction.h",
                       "DynamicBitset.h", "DynamicBitset.cpp")],
    [("time", CPP + "DurationSegment.h:merge, finaliseBack, finaliseFront"), ("load", CPP + "LoadSegment.h:merge, finalise"),
     ("functions", CPP + "PiecewiseLinearFunction.h"), ("sets", CPP + "DynamicBitset.cpp")],
    "DurationSegment, LoadSegment, PiecewiseLinearFunction, DynamicBitset",
    cpp("segments", "released1 released2 released3 follow1 follow2 follow3 best1 best2 best3 group grouprel group4 trips tripsopen tripsrel tripsopenrel load2 load3 load4 loadgroup "
        "bits5 bits64 bits66 bits129")
    + cpp("segments", "points2 points3 points4 parts23", covers=["accepted", "rejected"])
    + cpp("segments", "parts01 parts12", covers=["accepted"]) + cpp("segments", "points1 parts22 parts00", covers=["rejected"]),
    "up to 4 parts, two trips, start times in [0, 4e9], all durations, windows (or unlimited), releases, loads and capacities symbolic in [0, 1e9]; functions of up to 4 "
    "points (x in -1..2, y symbolic in [-1e9, 1e9]) or 3 pieces (slopes -1..2, breakpoints and intercepts symbolic); sets of 5 to 129 flags",
    ENGINE + "Performing the parts one by one from an arbitrary symbolic start time is the oracle for joined parts; the definition is for functions and sets.",
    "more parts, values above 1e9, other slopes",
    [ALLOC, NDEBUG],
)

MOCK = (
    "The real binding code is compiled against a model of the binding library (constructors, attributes, methods, pickling), so values go "
    "in and out the way they do from Python. "
)

prop(
    "P07",
    "Pickling gives back an equal object with the same figures",
    "Every data, route and solution object that is pickled and unpickled equals the original and reports the same values for everything it "
    "reports, so that results survive being sent to other processes.",
    ["inputs"],
    "all values of all attributes of locations, clients, depots, shipments, groups, vehicle types, problem data, activities, routes and solutions",
    "Tests pickle a few objects whose fields often have default values, and compare with an equality that does not look at all of them.",
    [CPP + "bindings.cpp"],
    [("pickling", CPP + "bindings.cpp: py::pickle of each class")],
    "pickle.loads(pickle.dumps(x))",
    cpp("pickle", "pickle_activity pickle_location pickle_client pickle_depot pickle_shipment pickle_group pickle_vehicle pickle_plf "
        "pickle_bitset pickle_data pickle_solution pickle_solution_time", covers=[]),
    "objects with one or two load dimensions, short names, up to two routes; all numeric fields symbolic in [0, 1e9] or the whole valid range",
    ENGINE + MOCK + "Each attribute and method result of the copy is compared with the original's.",
    "objects with longer lists; the byte format of pickle itself",
    [ALLOC, NDEBUG, "pybind11 converts values faithfully (it is modelled)"],
)

prop(
    "P17",
    "Clients, depots, shipments, groups and vehicles keep exactly valid values",
    "Creating a location, client, depot, shipment, client group or vehicle type succeeds exactly when its values are valid as documented, and "
    "the object then reports exactly the given values, or the documented defaults for those left out. Objects are equal exactly "
    "when all they were created from is equal, and replacing attributes changes those and nothing else.",
    ["inputs"],
    "all values of all attributes, any subset of them left out or replaced",
    "Tests list examples of rejected values and defaults; exactness for every combination of fields cannot be sampled.",
    [CPP + "bindings.cpp", CPP + "Client.cpp", CPP + "Depot.cpp", CPP + "Shipment.cpp", CPP + "ClientGroup.cpp", CPP + "VehicleType.cpp",
     CPP + "Location.cpp"],
    [("construction and validation", CPP + "Client.cpp, Depot.cpp, Shipment.cpp, ClientGroup.cpp, VehicleType.cpp, Location.cpp"),
     ("argument names and defaults", CPP + "bindings.cpp")],
    "Client(...), Depot(...), Shipment(...), ClientGroup(...), VehicleType(...), Location(...) and their attributes",
    cpp("entities", "ent_location ent_client_omit ent_client_pad ent_client_eq ent_depot_omit ent_depot_eq "
        "ent_shipment_omit ent_shipment_eq ent_group ent_group_eq ent_vehicle_omit ent_vehicle_derived ent_vehicle_pad ent_vehicle_eq "
        "ent_vehicle_replace", covers=[])
    + cpp("entities", "ent_client ent_depot ent_step ent_shipment ent_vehicle", covers=["accepted", "rejected"]),
    "every field symbolic over its whole 64-bit range (valid and invalid), lists of up to two or three elements, short names; any one or two "
    "fields left out or replaced",
    ENGINE + MOCK + "The documented validity conditions and defaults are the oracle.",
    "longer lists and names",
    [ALLOC, NDEBUG, "pybind11 converts values faithfully (it is modelled)"],
)

prop(
    "P18",
    "Problem data is consistent, and reports and replaces exactly its parts",
    "Problem data is accepted exactly when its parts fit together: indices refer to existing locations, depots, groups and profiles, load dimensions "
    "agree, groups and their members refer to each other, and matrices are square with zero diagonals. It then reports exactly the given "
    "parts and counts, looking up a part that does not exist raises an error, and replacing parts changes those and nothing else.",
    ["inputs"],
    "all indices, dimensions, matrix values and combinations of parts",
    "Tests list examples; an accepted inconsistent instance crashes or corrupts a later search.",
    [CPP + "ProblemData.cpp", CPP + "ProblemData.h", CPP + "bindings.cpp"],
    [("validation", CPP + "ProblemData.cpp:validate"), ("replacement", CPP + "ProblemData.cpp:replace"), ("lookup", CPP + "bindings.cpp:ProblemData")],
    "ProblemData(...), its lists, lookups, counts and replace",
    cpp("problem", "data_clients data_dims data_vehicles data_shipments data_matrices", covers=["accepted", "rejected"])
    + cpp("problem", "data_reports data_replace data_equal data_windows data_element", covers=[]),
    "1-3 locations, up to two clients, depots, groups, shipments, vehicle types and profiles; all indices symbolic over the whole non-negative "
    "64-bit range, matrix values symbolic in [-1e9, 1e9], vehicle counts up to 2^40",
    ENGINE + MOCK + "The documented consistency conditions are the oracle.",
    "larger instances; wrongly typed arguments",
    [ALLOC, NDEBUG, "pybind11 converts values faithfully (it is modelled)"],
)

PYENGINE = (
    "The Python code of /repo's current tree runs in the real interpreter on values that are z3 terms; z3 decides every branch on them and both sides "
    "are explored, so that the assertions hold for all values. The compiled extension is replaced by stand-ins. "
)
PYNUM = "numbers are mathematical (integers exactly as in Python, floating point without rounding)"

prop(
    "P19",
    "A run returns the best feasible solution seen, and stops when told",
    "The result of a run is, of the starting solution and all solutions the search found, a feasible one of least cost (or an infeasible one only if none was feasible). "
    "Before every iteration the stopping criterion is asked exactly once, with the cost of the best solution so far, and the run ends the "
    "first time it says so. The reported iterations, statistics, cost and feasibility agree with what happened.",
    ["inputs", "histories"],
    "all sequences of costs and feasibilities of the solutions found, all penalty changes",
    "Tests run a few iterations on fixed instances, where the best solution is rarely found in an awkward order.",
    ["pyvrp/IteratedLocalSearch.py", "pyvrp/solve.py", "pyvrp/Result.py", "pyvrp/Statistics.py"],
    [("search loop", "pyvrp/IteratedLocalSearch.py:run"), ("set-up", "pyvrp/solve.py:solve"), ("records", "pyvrp/Statistics.py:collect; pyvrp/Result.py")],
    "IteratedLocalSearch.run, solve, Result, Statistics",
    py("ils", "best_0 best_2 best_3 best_1x best_2x best_3x best_quiet stop_3 stop_3x stats_2 stats_3 solve_wiring", cost=5)
    + py("ils", "report", covers=["end", "rejected"])
    + py("ils", "best_5 best_4x", tier="thorough", cost=30),
    "up to 3 iterations (thorough: 5), with and without exhaustive search of new best solutions and restarts; every solution found has symbolic cost in "
    "[-1e9, 1e9] and feasibility, and a symbolic penalised cost under each penalty setting",
    PYENGINE + "The minimum over everything the search returned is the oracle.",
    "longer runs",
    ["an exhaustive search does not increase the penalised cost (decided by P16 for the real search)", "infeasible solutions cost the maximum value (P05)"],
)

prop(
    "P20",
    "Stopping criteria stop exactly when they should",
    "Each criterion says stop exactly when its condition holds: more than the given number of iterations asked for, the given number of "
    "consecutive iterations without a better cost, more than the given time since it was first asked, a feasible solution, or any of several combined. "
    "Negative limits and empty combinations are rejected.",
    ["inputs", "histories"],
    "all limits, cost sequences and clock readings",
    "Tests use a few limits and sequences; off-by-one errors at other limits or orders stay hidden.",
    ["pyvrp/stop/MaxIterations.py", "pyvrp/stop/NoImprovement.py", "pyvrp/stop/MaxRuntime.py", "pyvrp/stop/FirstFeasible.py",
     "pyvrp/stop/MultipleCriteria.py"],
    [("criteria", "pyvrp/stop/*.py: __call__")],
    "MaxIterations, NoImprovement, MaxRuntime, FirstFeasible, MultipleCriteria",
    py("stop", "max_iterations no_improvement no_improvement_any max_runtime multiple", covers=["end", "rejected"])
    + py("stop", "first_feasible combined"),
    "limits symbolic up to 1e6, 3-6 consecutive questions with symbolic costs and times, up to three combined criteria",
    PYENGINE + "The condition counted directly over the sequence is the oracle.",
    "longer sequences",
    [PYNUM],
)

prop(
    "P21",
    "The search moves by late acceptance and restarts from the best",
    "A candidate becomes the current solution exactly when its penalised cost is below the current solution's or below that of the solution remembered the given number "
    "of iterations ago (the starting solution if none), as documented for late acceptance hill-climbing. After the given number of iterations "
    "without a new best solution the search forgets its history and continues from the best. Observers are told of every start, iteration, new best, restart and end, with the right solutions.",
    ["inputs", "histories"],
    "all sequences of penalised costs and feasibilities, history lengths and restart limits at the bound",
    "The behaviour depends on the order of past costs; a test follows one trajectory.",
    ["pyvrp/IteratedLocalSearch.py", "pyvrp/RingBuffer.py"],
    [("acceptance", "pyvrp/IteratedLocalSearch.py:run"), ("history", "pyvrp/RingBuffer.py")],
    "IteratedLocalSearch.run's calls of the search method and callbacks",
    py("ils", "accept_1 accept_2 accept_restart accept_restart4 calls_3 calls_3x calls_restart1", cost=8)
    + py("ils", "calls_restart", cost=40)
    + py("ils", "accept_3", cost=120)
    + py("ils", "accept_25 accept_restart1 accept_restart3", tier="thorough", cost=90),
    "4-5 iterations (thorough: 6) with history lengths 1-3 and restart limits 1-3; penalised costs symbolic in [-1e9, 1e9], different under each penalty setting "
    "unless feasible",
    PYENGINE + "A direct transcription of the documented acceptance rule is the oracle.",
    "longer runs and histories",
    ["an exhaustive search does not increase the penalised cost (decided by P16 for the real search)"],
)

prop(
    "P22",
    "Penalties follow recent feasibility and stay within their limits",
    "Penalties start at the given values limited to the allowed range. Whenever the set number of solutions has been registered, each penalty is raised if too few "
    "of them were feasible in its dimension, lowered if too many were, left alone within the tolerance, and always stays within its range; other dimensions "
    "are not affected. Cost evaluators use the current (or the maximum) penalties, invalid parameters are rejected, and a warning appears exactly when a penalty at its maximum does not reduce violations.",
    ["inputs", "histories"],
    "all initial penalties and sequences of violations, for several parameter settings",
    "Tests register a few sequences; the interplay of counts, tolerance and limits has many cases.",
    ["pyvrp/PenaltyManager.py"],
    [("updates", "pyvrp/PenaltyManager.py:_register, _compute"), ("evaluators", "pyvrp/PenaltyManager.py:cost_evaluator, max_cost_evaluator")],
    "PenaltyManager.penalties, register, cost_evaluator, max_cost_evaluator; PenaltyParams",
    py("penalty", "params", covers=["end", "rejected"])
    + py("penalty", "one_0 one_1 one_2 one_3 one_4 one_5 all_1 all_2 whole_0 whole_1", cost=20)
    + py("penalty", "one_6 all_4 all_5", tier="thorough", cost=120),
    "six parameter settings (1-4 registrations between updates, exactly representable factors), 0-2 load dimensions, up to 8 registrations; initial penalties symbolic "
    "in [0, 1e6] (and concrete whole numbers with whole-number limits), violations symbolic in [0, 1e9], in one or all dimensions",
    PYENGINE + "The documented update rule computed from the registered violations is the oracle.",
    "other parameter values, rounding of floating point",
    [PYNUM, "the mean of values is exact"],
)

prop(
    "P23",
    "Fleet minimisation returns a smaller fleet only if it was shown feasible",
    "The returned fleet is the given one with its number of vehicles possibly lowered to one for which a feasible solution was found, never below one and "
    "never with anything else changed. Unless stopped, smaller fleets are tried until one fails or the demand cannot be "
    "carried by fewer vehicles. Instances with several vehicle types or optional clients are rejected.",
    ["inputs", "histories"],
    "all demands, fleet sizes, and outcomes of solving with each fleet",
    "Tests solve a few instances; which fleets are tried depends on demand, routes used and feasibility at every step.",
    ["pyvrp/minimise_fleet.py"],
    [("loop", "pyvrp/minimise_fleet.py:minimise_fleet"), ("bound", "pyvrp/minimise_fleet.py:_lower_bound")],
    "minimise_fleet",
    py("fleet", "rejects", covers=["end", "rejected"]) + py("fleet", "fleet_0 fleet_1 fleet_trips fleet_2 fleet_stop fleet_none fleet_ship fleet_ships", cost=5),
    "1-4 vehicles, 0-2 clients, 0-2 shipments, 0-2 load dimensions with symbolic demands up to 1e9, capacities 0, 1, 5, 1000 and 1-3 trips; the solver's answers are "
    "arbitrary (feasible or not, any number of routes), except that feasible solutions carry the demand",
    PYENGINE + "What the stand-in solver answered is the oracle.",
    "larger fleets; optional shipments",
    ["a feasible solution carries all demand within the vehicles' capacities and trips (P04)"],
)

prop(
    "P24",
    "A model produces exactly the data that was described to it",
    "The data a model produces has its locations, clients, depots, shipments, groups and vehicle types in the order they were added, referring to each other "
    "as given even when they compare equal. Each edge has the distance and duration last given for its profile, else for all profiles, else "
    "the missing value, zero from a location to itself; a model made from data produces that data again. Parts that are not of the model, and invalid edges, are rejected and leave it unchanged.",
    ["inputs", "histories"],
    "all attribute values, edge values, orders of additions and choices of profiles",
    "Tests build a few models; precedence between repeated, shared and profile-specific edges has many orders.",
    ["pyvrp/Model.py"],
    [("building", "pyvrp/Model.py:add_*"), ("data", "pyvrp/Model.py:data, from_data")],
    "Model.add_*, Model.data, Model.from_data",
    py("model", "edge clients others vehicles", covers=["end", "rejected"], cost=3)
    + py("model", "defaults from_1 from_2 edges_2 edges_np edges_3", cost=15)
    + py("model", "edges_1p", cost=40)
    + py("model", "edges_33", tier="thorough", cost=150),
    "2-3 locations, 0-2 profiles, up to 3 edges in any order, all attribute and edge values symbolic in [0, 1e9] (edges: whole range)",
    PYENGINE + "What was given is the oracle.",
    "larger models; values that are not integers",
    [PYNUM, "matrices hold the values assigned to them (numpy's integer conversion is not modelled)"],
)

prop(
    "P25",
    "Random starts and search orders are sound for every random stream",
    "A randomly constructed solution visits all that is required, nothing twice, exactly one member of each required group and at most one of others, "
    "and uses no more vehicles than there are, for every stream of random numbers. Shuffling and search orders keep every element exactly once, and any order can "
    "come out; random integers are below their bound, and equal generator states give equal streams.",
    ["inputs", "schedules"],
    "all random draws, all combinations of required and optional clients, shipments and groups",
    "Tests follow a few seeds; rare draws lead to distributions over vehicles and positions within routes that none of them reaches.",
    [CPP + f for f in ("Solution.cpp", "RandomNumberGenerator.h", "RandomNumberGenerator.cpp", "search/SearchSpace.cpp")],
    [("random solutions", CPP + "Solution.cpp:Solution::Solution(data, rng)"), ("generator", CPP + "RandomNumberGenerator.h:randint, shuffle"),
     ("search orders", CPP + "search/SearchSpace.cpp:shuffle")],
    "Solution(data, rng), Solution.make_random, RandomNumberGenerator",
    cpp("random", "init_clients init_clients2 init_group init_groups init_ship init_ship2 init_mix init_five orders orders_c orders_v shuffle1 shuffle5")
    + cpp("random", "shuffle3", covers=["end", "order012", "order021", "order102", "order120", "order201", "order210"])
    + cpp("rng", "rng_one rng_int rng_same"),
    "up to 5 clients in up to two groups, up to 3 shipments, 1-3 vehicles of up to two types; lists of up to 5 elements; every number drawn is a symbolic 32-bit integer or real in [0, 1]; "
    "generator states and bounds symbolic over the whole 32-bit range",
    ENGINE + "The random number generator is replaced by one whose every draw is a fresh symbolic value (except where it is itself the subject).",
    "larger instances; statistical quality of the generator",
    [ALLOC, NDEBUG],
)

prop(
    "P26",
    "Neighbourhoods hold the closest other visits, closest first",
    "Each client and pickup has as many neighbours as asked for (or as there are), none twice, never itself or its own delivery. They are ordered by proximity, and nothing "
    "left out is closer: proximity is the least cost over vehicle types of the direct connection including necessary and weighted waiting, in either direction if symmetric, from either "
    "end of a shipment, with connections that cannot be in time and members of the same group last.",
    ["inputs"],
    "all distances, durations, time windows and service durations, for several parameters",
    "Tests compare a few instances; ties, infeasible connections and shipments make orders that instances at hand do not have.",
    [SEARCH + "neighbourhood.cpp", SEARCH + "neighbourhood.h"],
    [("proximity", SEARCH + "neighbourhood.cpp:computeProximity"), ("selection", SEARCH + "neighbourhood.cpp:computeNeighbours")],
    "compute_neighbours",
    cpp("nbhood", "nb_one nb_three nb_four nb_group nb_dur nb_types nb_types2 nb_ship nb_ships nb_mix nb_win2 nb_win3 nb_winship nb_wingroup nb_shared nb_shared3 nb_asym_ships nb_asym_ship", cost=3)
    + cpp("nbhood", "nb_wintypes nb_winships nb_winmix nb_asym_mix", tier="thorough", cost=200, timeout=3600),
    "1-4 clients (two of them in a group), 0-2 shipments, one to three vehicle types with different costs and with the same or different profiles, 1-3 neighbours; weights of waiting 0, 0.5, 1 and 2; distances, "
    "durations, windows and services symbolic in [0, 1e6]",
    ENGINE + "The documented proximity evaluated in integers is the oracle.",
    "larger instances; weights that are not exact in binary",
    [ALLOC, NDEBUG],
)

prop(
    "P27",
    "Instances and solutions are read as their files say",
    "Every client, depot, shipment, group, vehicle and distance of a read instance has the values of the file's sections, with the documented defaults where a section is missing, "
    "and rounded as asked. Vehicles that are alike form one type, vehicles that may not visit a location have prohibitive distances there, backhauls cannot precede linehauls, and "
    "inconsistent sections are rejected; the routes of a read solution have the visits and vehicles listed.",
    ["inputs"],
    "all section values, presence of sections and layouts at the bound",
    "Tests read a few files; combinations of sections, depots and values that those do not have stay hidden.",
    ["pyvrp/read.py"],
    [("sections", "pyvrp/read.py:_InstanceParser"), ("data", "pyvrp/read.py:_ProblemDataBuilder"), ("solutions", "pyvrp/read.py:read_solution")],
    "read, read_solution",
    py("read", "clients_1 clients_2 clients_1w clients_2w clients_3w veh_limits veh_costs veh_load veh_depot veh_depot3 veh_3 prof_2 prof_2d prof_3 "
       "backhauls large groups_3 groups_4 ship_1 ship_2 ship_exact missing round_0 round_1 round_2", cost=4)
    + py("read", "depots lengths unknown", covers=["end", "rejected"])
    + py("read", "sol_clients sol_ships", cost=30)
    + py("read", "veh_all ship_3", tier="thorough", cost=90),
    "1-2 depots, 2-4 clients or 2 shipments (thorough: 3), 1-3 vehicles, every optional section absent, one value or one per row; values symbolic in [0, 1e9], for rounding real in "
    "[0, 1000]; solutions of 2 routes of up to 2 visits",
    PYENGINE + "Parsed sections with symbolic values go through the reader; the format's documentation is the oracle.",
    "parsing the text of files, which is done by the vrplib package; arithmetic on doubles where rounding is not exact",
    [PYNUM],
)

prop(
    "P28",
    "Written files are read back the same, and the command line does as it is told",
    "A solution written by the command line and read again has the same routes, visits and vehicle types, and statistics written and read again are the same. Parameters read from a "
    "file have its values, and the defaults otherwise. The command line solves the given instance with the given rounding, parameters, seed and limits (per client if asked), and stores and reports the result.",
    ["inputs"],
    "all solutions, statistics, parameters and options at the bound",
    "Tests round-trip a few files; vehicle types that share vehicles, empty routes, reload visits or unusual options are not among them.",
    ["pyvrp/cli.py", "pyvrp/read.py", "pyvrp/Statistics.py", "pyvrp/solve.py"],
    [("solutions", "pyvrp/cli.py:write_solution; pyvrp/read.py:read_solution"), ("statistics", "pyvrp/Statistics.py:to_csv, from_csv"),
     ("parameters", "pyvrp/solve.py:SolveParams.from_file"), ("runs", "pyvrp/cli.py:_solve")],
    "write_solution, read_solution, Statistics.to_csv, Statistics.from_csv, SolveParams.from_file, the pyvrp command",
    py("files", "stats_0 stats_1 stats_2 command config_0 config_1", cost=3) + py("files", "sol_one sol_ship1", cost=15)
    + py("files", "sol_two sol_rev sol_ships", cost=45),
    "solutions of 2 routes with up to 2 visits (clients or shipments and reload depots) of 1-2 vehicle types in 4 assignments of vehicles; statistics of 0-2 iterations; all presence patterns "
    "of parameters; costs, times and limits symbolic",
    PYENGINE + "Files are kept in memory, and a symbolic number is written as a mark that is only understood where a number is read; equality of what was written and read is the oracle.",
    "the text of numbers; the vrplib package's own parsing, of which the part for solutions is transcribed; progress output, tables and plots",
    [PYNUM],
)

NOT_APPLICABLE = {}
