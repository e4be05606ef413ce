// P04: a solution's totals, missing counts, unplanned list and feasibility
// follow from its routes. P05: objective and penalised cost. P06: equality and
// hashing.
#include "inst.h"

#include <unordered_set>

namespace
{
constexpr int64_t B = 1'000'000'000;

struct Plan
{
    std::vector<std::pair<size_t, Acts>> routes;  // vehicle type, visits
};

Solution make(ProblemData const &data, Plan const &p)
{
    std::vector<Route> rs;
    for (auto const &[vt, acts] : p.routes)
        rs.emplace_back(data, conv(acts), vt);
    return Solution(data, rs);
}

bool visited(Plan const &p, Act a)
{
    for (auto const &[vt, acts] : p.routes)
        for (auto const &b : acts)
            if (a.type == b.type && a.idx == b.idx)
                return true;
    return false;
}

// Four clients (two in a group), one or two shipments, two vehicle types.
Inst instance(size_t nc, size_t ns, size_t dims, bool group)
{
    Inst in(nc, ns, 2, {2, 1}, dims, 2);
    in.ve[0].reload = {1};
    in.ve[0].udist = 2;
    in.ve[0].udur = 3;
    in.ve[0].uot = 4;
    in.ve[1].start = 1;
    in.ve[1].prof = 1;
    if (group)
    {
        in.gr.emplace_back();
        in.gr[0].clients = {0, 1};
        in.gr[0].req = vp_bool("group_required");
        in.cl[0].grp = in.cl[1].grp = 0;
        in.cl[0].req = in.cl[1].req = false;
    }
    for (size_t i = group ? 2 : 0; i < nc; ++i)
        in.cl[i].req = vp_bool(nm("required", i).c_str());
    for (size_t i = 0; i != ns; ++i)
        in.sh[i].req = vp_bool(nm("shipment_required", i).c_str());
    return in;
}

// Any plan: each client and shipment goes to one of the vehicles or nowhere.
Plan choosePlan(Inst const &in)
{
    Plan p;
    std::vector<size_t> const types = {0, 1};
    std::vector<Acts> acts(types.size());
    for (size_t i = 0; i != in.cl.size(); ++i)
    {
        size_t const r = vp_choose(nm("client_route", i).c_str(), types.size() + 1);
        if (r < types.size())
            acts[r].insert(acts[r].begin(), C(i));
    }
    for (size_t i = 0; i != in.sh.size(); ++i)
    {
        size_t const r = vp_choose(nm("shipment_route", i).c_str(), types.size() + 1);
        if (r < types.size())
        {
            acts[r].insert(acts[r].begin(), P(i));
            acts[r].push_back(L(i));
        }
    }
    for (size_t r = 0; r != types.size(); ++r)
        if (!acts[r].empty())
            p.routes.push_back({types[r], acts[r]});
    for (auto const &g : in.gr)
    {
        size_t k = 0;
        for (auto c : g.clients)
            k += visited(p, C(c));
        vp_assume(k <= 1);
    }
    return p;
}

void totals(Inst const &in, Plan const &p)
{
    auto const data = in.build();
    Solution const s = make(data, p);

    int64_t dist = 0, distCost = 0, dur = 0, durCost = 0, ot = 0, exd = 0, tw = 0, fixed = 0, prizes = 0, all = 0;
    std::vector<int64_t> exl(in.dims, 0);
    size_t nc = 0, ns = 0, nt = 0;
    for (auto const &[vt, acts] : p.routes)
    {
        Route const r(data, conv(acts), vt);  // its own values: P01 and P02
        auto const d = in.total(in.dist, vt, acts);
        dist += d;
        distCost += d * in.ve[vt].udist;
        exd += imax(d - in.ve[vt].maxdist, 0);
        dur += r.duration().get();
        durCost += r.durationCost().get();
        ot += r.overtime().get();
        tw += r.timeWarp().get();
        fixed += in.ve[vt].fixed;
        prizes += in.prizes(acts);
        for (size_t k = 0; k != in.dims; ++k)
            exl[k] += in.excessLoad(vt, acts, k);
        nt++;
        for (auto const &a : acts)
        {
            nc += a.type == AT::CLIENT;
            ns += a.type == AT::PICKUP;
            nt += a.type == AT::DEPOT;
        }
    }
    for (auto const &c : in.cl)
        all += c.prize;
    for (auto const &x : in.sh)
        all += x.prize;

    vp_check(s.numRoutes() == p.routes.size() && s.numTrips() == nt, "number of routes and trips");
    vp_check(s.numClients() == nc && s.numShipments() == ns, "number of clients and shipments");
    vp_check(s.empty() == p.routes.empty(), "emptiness");
    vp_check(s.distance().get() == dist && s.distanceCost().get() == distCost, "distance totals");
    vp_check(s.duration().get() == dur && s.durationCost().get() == durCost, "duration totals");
    vp_check(s.overtime().get() == ot, "overtime total");
    vp_check(s.excessDistance().get() == exd, "excess distance total");
    vp_check(s.timeWarp().get() == tw, "time warp total");
    vp_check(s.fixedVehicleCost().get() == fixed, "fixed vehicle cost total");
    vp_check(s.prizes().get() == prizes, "collected prizes");
    vp_check(s.uncollectedPrizes().get() == all - prizes, "uncollected prizes");
    bool excess = false;
    for (size_t k = 0; k != in.dims; ++k)
    {
        vp_check(s.excessLoad()[k].get() == exl[k], "excess load totals");
        excess = excess || exl[k] > 0;
    }

    // Missing and unplanned.
    size_t mc = 0, mg = 0, ms = 0;
    Acts unplanned;
    for (size_t i = 0; i != in.cl.size(); ++i)
        if (!visited(p, C(i)))
        {
            mc += in.cl[i].req;
            unplanned.push_back(C(i));
        }
    for (size_t i = 0; i != in.sh.size(); ++i)
        if (!visited(p, P(i)))
        {
            ms += in.sh[i].req;
            unplanned.push_back(P(i));
            unplanned.push_back(L(i));
        }
    for (auto const &g : in.gr)
    {
        bool any = false;
        for (auto c : g.clients)
            any = any || visited(p, C(c));
        mg += g.req && !any;
    }
    vp_check(s.numMissingClients() == mc, "missing clients");
    vp_check(s.numMissingShipments() == ms, "missing shipments");
    vp_check(s.numMissingGroups() == mg, "missing groups");
    vp_check(s.unplanned().size() == unplanned.size(), "number of unplanned activities");
    for (auto const &a : unplanned)
    {
        size_t k = 0;
        for (auto const &b : s.unplanned())
            k += a.type == b.type() && a.idx == b.idx();
        vp_check(k == 1, "unplanned activities");
    }
    bool const complete = mc == 0 && ms == 0 && mg == 0;
    vp_check(s.isComplete() == complete, "completeness");
    vp_check(s.hasExcessLoad() == excess && s.hasExcessDistance() == (exd > 0) && s.hasTimeWarp() == (tw > 0),
             "violation flags");
    vp_check(s.isFeasible() == (complete && !excess && exd == 0 && tw == 0), "feasibility");
    vp_cover("end");
}

void objective(Inst const &in, Plan const &p, std::vector<double> load, double twp, double distp, int scale)
{
    auto const data = in.build();
    Solution const s = make(data, p);
    CostEvaluator const ce(load, twp, distp);

    // Each route's violations are weighted and rounded down to whole units, one
    // by one; penalties are multiples of 1 / scale.
    int64_t obj = 0, pen = 0;
    auto const weigh = [&](double w, int64_t x) { return (int64_t)(w * scale) * x / scale; };
    for (auto const &c : in.cl)
        obj += c.prize;
    for (auto const &x : in.sh)
        obj += x.prize;
    bool viol = false;
    for (auto const &[vt, acts] : p.routes)
    {
        Route const r(data, conv(acts), vt);  // its duration values: P01
        auto const d = in.total(in.dist, vt, acts);
        auto const &v = in.ve[vt];
        obj += d * v.udist + v.udur * r.duration().get() + v.uot * imax(r.duration().get() - v.shift, 0) + v.fixed
               - in.prizes(acts);
        int64_t const exd = imax(d - v.maxdist, 0), tw = r.timeWarp().get();
        viol = viol || exd > 0 || tw > 0;
        pen += weigh(distp, exd) + weigh(twp, tw);
        for (size_t k = 0; k != in.dims; ++k)
        {
            int64_t const ex = in.excessLoad(vt, acts, k);
            viol = viol || ex > 0;
            pen += weigh(load[k], ex);
        }
    }
    bool complete = true;
    for (size_t i = 0; i != in.cl.size(); ++i)
        complete = complete && (!in.cl[i].req || visited(p, C(i)));
    for (size_t i = 0; i != in.sh.size(); ++i)
        complete = complete && (!in.sh[i].req || visited(p, P(i)));
    for (auto const &g : in.gr)
    {
        bool any = false;
        for (auto c : g.clients)
            any = any || visited(p, C(c));
        complete = complete && (!g.req || any);
    }

    int64_t const pc = ce.penalisedCost(s).get();
    int64_t const cost = ce.cost(s).get();
    vp_check(pc == obj + pen, "penalised cost is the objective plus weighted violations");
    if (complete && !viol)
    {
        vp_check(cost == obj, "cost of a feasible solution is the objective");
        vp_check(pc == obj, "no penalty without violations");
        vp_cover("feasible");
    }
    else
    {
        vp_check(cost == IMAX, "cost of an infeasible solution is the maximum");
        vp_cover("infeasible");
    }
    vp_cover("end");
    vp_observe(pc);
}

void sym1(Inst &in)
{
    in.symDist(B);
    in.symLoads(B, false);
    in.symMaxDist(B);
    in.symFixed(B);
    in.symPrizes(B);
}
void symTime(Inst &in)
{
    in.symDur(B);
    in.symClientSvc(B);
    in.symClientTw(B);
    in.symShift(B);
}

void equality(size_t nc, size_t ns)
{
    Inst in(nc, ns, 1, {2, 1}, 0);
    in.ve[0].reload = {0};
    for (auto &c : in.cl)
        c.req = false;
    for (auto &s : in.sh)
        s.req = false;
    in.symDist(B);
    in.symDur(B);
    in.symPrizes(B);
    in.symFixed(B);
    auto const data = in.build();

    // Two arbitrary plans with up to two routes, from a catalogue of route
    // shapes; equal iff they have the same routes, in whatever order.
    std::vector<std::pair<size_t, Acts>> cat;
    for (size_t vt = 0; vt != 2; ++vt)
    {
        cat.push_back({vt, {C(0)}});
        cat.push_back({vt, {C(1)}});
        cat.push_back({vt, {C(0), C(1)}});
        cat.push_back({vt, {C(1), C(0)}});
    }
    cat.push_back({0, {C(0), D(0), C(1)}});
    if (ns)
    {
        cat.push_back({0, {P(0), L(0)}});
        cat.push_back({0, {P(0), C(0), L(0)}});
        cat.push_back({0, {C(0), P(0), L(0)}});
    }
    auto const pick = [&](char const *n)
    {
        Plan p;
        std::vector<size_t> idx;
        size_t const k = vp_choose(nm(n, 9).c_str(), 3);
        for (size_t i = 0; i != k; ++i)
        {
            size_t const x = vp_choose(nm(n, i).c_str(), cat.size());
            idx.push_back(x);
            p.routes.push_back(cat[x]);
        }
        // valid plans only
        std::vector<size_t> seen(nc + ns, 0), used(2, 0);
        for (auto const &[vt, acts] : p.routes)
        {
            used[vt]++;
            for (auto const &a : acts)
            {
                if (a.type == AT::CLIENT)
                    seen[a.idx]++;
                if (a.type == AT::PICKUP)
                    seen[nc + a.idx]++;
            }
        }
        bool ok = used[1] <= 1;
        for (auto x : seen)
            ok = ok && x <= 1;
        vp_assume(ok);
        return std::make_pair(p, idx);
    };
    auto const [p1, i1] = pick("first");
    auto const [p2, i2] = pick("second");
    bool same = i1.size() == i2.size();
    if (same && i1.size() == 1)
        same = i1[0] == i2[0];
    if (same && i1.size() == 2)
        same = (i1[0] == i2[0] && i1[1] == i2[1]) || (i1[0] == i2[1] && i1[1] == i2[0]);

    Solution const a = make(data, p1), b = make(data, p2);
    vp_check((a == b) == same, "solutions are equal iff they have the same routes");
    vp_check((b == a) == same, "equality is symmetric");
    Solution const copy = a;
    vp_check(copy == a && std::hash<Solution>()(copy) == std::hash<Solution>()(a), "copies are equal");
    if (same)
    {
        vp_check(std::hash<Solution>()(a) == std::hash<Solution>()(b), "equal solutions hash alike");
        vp_cover("same");
    }
    if (p1.routes.size() == 1 && p2.routes.size() == 1)
        vp_check((a.routes()[0] == b.routes()[0]) == same, "routes are equal iff type and visits are");
    vp_cover("end");
}
}  // namespace

extern "C" void h_totals_any()
{
    Inst in = instance(3, 1, 1, true);
    auto const p = choosePlan(in);
    sym1(in);
    totals(in, p);
}
extern "C" void h_totals_any2()
{
    Inst in = instance(4, 2, 2, true);
    auto const p = choosePlan(in);
    sym1(in);
    totals(in, p);
}
extern "C" void h_totals_time()
{
    Inst in = instance(3, 0, 0, false);
    auto const p = choosePlan(in);
    in.symDist(B);
    symTime(in);
    totals(in, p);
}
extern "C" void h_totals_trips()
{
    Inst in = instance(4, 0, 1, false);
    Plan p;
    p.routes.push_back({0, {C(0), D(1), C(2)}});
    p.routes.push_back({0, {C(1)}});
    sym1(in);
    totals(in, p);
}
extern "C" void h_obj_any()
{
    Inst in = instance(3, 1, 1, true);
    auto const p = choosePlan(in);
    sym1(in);
    in.symDur(B);
    in.symShift(B);
    objective(in, p, {7}, 3, 5, 1);
}
extern "C" void h_obj_time()
{
    Inst in = instance(2, 0, 0, false);
    auto const p = choosePlan(in);
    in.symDist(B);
    symTime(in);
    objective(in, p, {}, 6, 1, 1);
}
extern "C" void h_obj_frac()
{
    Inst in = instance(2, 1, 2, false);
    auto const p = choosePlan(in);
    sym1(in);
    in.symDur(B);
    in.symShift(B);
    objective(in, p, {0.25, 1.75}, 2.5, 0.125, 8);
}
extern "C" void h_obj_zero()
{
    Inst in = instance(2, 0, 1, false);
    auto const p = choosePlan(in);
    sym1(in);
    in.symDur(B);
    in.symShift(B);
    objective(in, p, {0}, 0, 0, 1);
}
extern "C" void h_eq_clients() { equality(2, 0); }
extern "C" void h_eq_ships() { equality(2, 1); }
