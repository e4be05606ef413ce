// The search route's bookkeeping, after any edits, agrees with a route built
// from scratch, and its proposals agree with the route they propose.
#include "ops.h"

#include "search/ClientSegment.h"
#include "search/DeliverySegment.h"
#include "search/DepotSegment.h"
#include "search/PickupSegment.h"

namespace
{
struct Nodes
{
    std::vector<Node> cl;
    std::vector<std::pair<Node, Node>> sh;
    Nodes(Inst const &in)
    {
        for (size_t i = 0; i != in.cl.size(); ++i)
            cl.emplace_back(AT::CLIENT, i);
        for (size_t i = 0; i != in.sh.size(); ++i)
            sh.push_back({{AT::PICKUP, i}, {AT::DELIVERY, i}});
    }
    Node *operator()(Act a)
    {
        return a.type == AT::CLIENT ? &cl[a.idx] : a.type == AT::PICKUP ? &sh[a.idx].first : &sh[a.idx].second;
    }
};

void add(S::Route &r, Nodes &nodes, size_t pos, Act a)
{
    if (a.type == AT::DEPOT)
    {
        Node d(AT::DEPOT, a.idx);
        r.insert(pos, &d);
    }
    else
        r.insert(pos, nodes(a));
}

// Structure only: positions, trips and membership.
void structure(Inst const &in, S::Route &r, Acts const &acts, size_t vt)
{
    vp_check(r.size() == acts.size() + 2, "route length");
    auto const full = Inst::full(in, vt, acts);
    size_t trip = 0, depots = 0;
    for (size_t i = 0; i != full.size(); ++i)
    {
        Node *x = r[i];
        vp_check(x->type() == full[i].type && x->idx() == full[i].idx, "the visits, in order");
        trip += i > 0 && full[i].type == AT::DEPOT;
        depots += full[i].type == AT::DEPOT;
        vp_check(x->route() == &r && x->pos() == i, "each visit knows its route and position");
        vp_check(x->trip() == trip, "each visit knows its trip");
        vp_check(x->isStartDepot() == (i == 0) && x->isEndDepot() == (i + 1 == full.size()), "start and end depot");
        vp_check(x->isReloadDepot() == (full[i].type == AT::DEPOT && i != 0 && i + 1 != full.size()), "reload depots");
    }
    vp_check(r.numTrips() == trip && r.numDepots() == depots, "number of trips");
}

// All figures against the route constructed from scratch.
void figures(Inst const &in, ProblemData const &data, S::Route const &r, Acts const &acts, size_t vt)
{
    Route const ref(data, conv(acts), vt);
    vp_check(r.vehicleType() == vt, "vehicle type");
    vp_check(r.distance().get() == ref.distance().get() && r.distanceCost().get() == ref.distanceCost().get(), "distance");
    vp_check(r.excessDistance().get() == ref.excessDistance().get(), "excess distance");
    vp_check(r.duration().get() == ref.duration().get(), "duration");
    vp_check(r.timeWarp().get() == ref.timeWarp().get(), "time warp");
    vp_check(r.durationCost().get() == ref.durationCost().get(), "duration cost");
    vp_check(r.overtime().get() == ref.overtime().get(), "overtime");
    vp_check(r.fixedVehicleCost().get() == in.ve[vt].fixed, "fixed cost");
    bool excess = false;
    for (size_t d = 0; d != in.dims; ++d)
    {
        vp_check(r.excessLoad()[d].get() == ref.excessLoad()[d].get(), "excess load");
        excess = excess || ref.excessLoad()[d].get() > 0;
    }
    vp_check(r.hasExcessLoad() == excess, "has excess load");
    vp_check(r.hasTimeWarp() == ref.hasTimeWarp() && r.hasExcessDistance() == ref.hasExcessDistance(), "violation flags");
    vp_check(r.isFeasible() == ref.isFeasible(), "feasibility");
    vp_check(r.numClients() == ref.numClients() && r.numShipments() == ref.numShipments(), "number of visits");
    vp_check(r.empty() == (ref.numClients() + ref.numShipments() == 0), "emptiness");
    size_t pk = 0, dl = 0;
    for (size_t i = 0; i != acts.size(); ++i)
    {
        pk += acts[i].type == AT::PICKUP;
        dl += acts[i].type == AT::DELIVERY;
        vp_check(r.numPickups(i + 1) == pk && r.numDeliveries(i + 1) == dl, "pickups and deliveries so far");
    }
}

Inst instance(size_t nc, size_t ns, Feat f, size_t dims = 1)
{
    Inst in(nc, ns, 2, {1, 1}, f == Feat::LOAD ? dims : 0, 2);
    in.ve[0].reload = {1, 0};
    in.ve[0].udur = 1;
    in.ve[0].uot = 2;
    in.ve[1].prof = 1;
    in.ve[1].start = 1;
    in.ve[1].reload = {0};
    return in;
}

// A sequence of edits, each any of a list, then an update.
void edits(size_t steps, Feat f, bool ship, Acts const &init = {})
{
    Inst in = instance(ship ? 1 : init.empty() ? 3 : 4, ship, f);
    Acts acts = init;
    struct Edit
    {
        int kind;  // 0 insert, 1 remove, 2 swap, 3 clear, 4 swap in
        size_t pos, pos2;
        Act act;
    };
    std::vector<Edit> todo;
    for (size_t k = 0; k != steps; ++k)
    {
        // All edits possible at this point.
        std::vector<Edit> poss;
        Acts pool = {D(1)};
        auto const here = [&](Act a)
        {
            for (auto const &b : acts)
                if (a.type == b.type && a.idx == b.idx)
                    return true;
            return false;
        };
        if (ship)
        {
            if (!here(P(0)))
                pool.push_back(P(0));
            if (!here(L(0)))
                pool.push_back(L(0));
        }
        for (size_t i = 0; i != in.cl.size(); ++i)
            if (!here(C(i)))
            {
                pool.push_back(C(i));
                break;  // the others are interchangeable
            }
        for (auto const &a : pool)
            for (size_t pos = 1; pos <= acts.size() + 1; ++pos)
                poss.push_back({0, pos, 0, a});
        for (size_t pos = 1; pos <= acts.size(); ++pos)
            poss.push_back({1, pos, 0, D(0)});
        for (auto const &a : pool)
            for (size_t pos = 1; pos <= acts.size(); ++pos)
                if (a.type != AT::DEPOT && acts[pos - 1].type != AT::DEPOT)
                    for (size_t order = 0; order != 2; ++order)
                        poss.push_back({4, pos, order, a});
        for (size_t a = 1; a <= acts.size(); ++a)
            for (size_t b = a + 1; b <= acts.size(); ++b)
                if (acts[a - 1].type != AT::DEPOT && acts[b - 1].type != AT::DEPOT)
                    poss.push_back({2, a, b, D(0)});
        if (!acts.empty())
            poss.push_back({3, 0, 0, D(0)});
        Edit const e = poss[vp_choose(nm("edit", k).c_str(), poss.size())];
        todo.push_back(e);
        if (e.kind == 0)
            acts.insert(acts.begin() + (e.pos - 1), e.act);
        else if (e.kind == 1)
            acts.erase(acts.begin() + (e.pos - 1));
        else if (e.kind == 2)
            std::swap(acts[e.pos - 1], acts[e.pos2 - 1]);
        else if (e.kind == 4)
            acts[e.pos - 1] = e.act;
        else
            acts.clear();
    }
    vp_assume(wellFormed(in, 0, acts));
    symFeat(in, f);
    auto const data = in.build();
    Nodes nodes(in);
    S::Route r(data, 0);
    for (size_t i = 0; i != init.size(); ++i)
        add(r, nodes, i + 1, init[i]);
    r.update();
    for (auto const &e : todo)
    {
        if (e.kind == 0)
            add(r, nodes, e.pos, e.act);
        else if (e.kind == 1)
            r.remove(e.pos);
        else if (e.kind == 2)
            S::Route::swap(r[e.pos], r[e.pos2]);
        else if (e.kind == 4 && e.pos2 == 0)
            S::Route::swap(r[e.pos], nodes(e.act));
        else if (e.kind == 4)
            S::Route::swap(nodes(e.act), r[e.pos]);
        else
            r.clear();
    }
    structure(in, r, acts, 0);
    for (auto &x : nodes.cl)
    {
        bool in = false;
        for (auto const &a : acts)
            in = in || (a.type == AT::CLIENT && a.idx == x.idx());
        vp_check(in || (x.route() == nullptr && x.pos() == 0 && x.trip() == 0), "removed visits belong to no route");
    }
    r.update();
    structure(in, r, acts, 0);
    figures(in, data, r, acts, 0);
    vp_cover("end");
}

// Two routes: swaps between them, and moves of a visit from one to the other.
void exchange(size_t steps, Feat f)
{
    Inst in = instance(4, 0, f);
    Acts acts[2] = {{C(0), D(1), C(1)}, {C(2), D(0), C(3)}};
    struct Edit
    {
        bool swap;
        size_t from, a, b;
    };
    std::vector<Edit> todo;
    Acts x[2] = {acts[0], acts[1]};
    for (size_t k = 0; k != steps; ++k)
    {
        std::vector<Edit> poss;
        for (size_t a = 0; a != x[0].size(); ++a)
            for (size_t b = 0; b != x[1].size(); ++b)
                if (x[0][a].type == AT::CLIENT && x[1][b].type == AT::CLIENT)
                    poss.push_back({true, 0, a, b});
        for (size_t from = 0; from != 2; ++from)
            for (size_t a = 0; a != x[from].size(); ++a)
                for (size_t b = 0; b <= x[1 - from].size(); ++b)
                    if (x[from][a].type == AT::CLIENT)
                        poss.push_back({false, from, a, b});
        Edit const e = poss[vp_choose(nm("edit", k).c_str(), poss.size())];
        todo.push_back(e);
        if (e.swap)
            std::swap(x[0][e.a], x[1][e.b]);
        else
        {
            Act const act = x[e.from][e.a];
            x[e.from].erase(x[e.from].begin() + e.a);
            x[1 - e.from].insert(x[1 - e.from].begin() + e.b, act);
        }
    }
    symFeat(in, f);
    auto const data = in.build();
    Nodes nodes(in);
    S::Route r(data, 0), q(data, 1);
    S::Route *routes[2] = {&r, &q};
    for (size_t i = 0; i != 2; ++i)
    {
        for (size_t k = 0; k != acts[i].size(); ++k)
            add(*routes[i], nodes, k + 1, acts[i][k]);
        routes[i]->update();
    }
    for (auto const &e : todo)
        if (e.swap)
            S::Route::swap(r[e.a + 1], q[e.b + 1]);
        else
        {
            Node *n = (*routes[e.from])[e.a + 1];
            routes[e.from]->remove(e.a + 1);
            routes[1 - e.from]->insert(e.b + 1, n);
        }
    for (size_t i = 0; i != 2; ++i)
    {
        structure(in, *routes[i], x[i], i);
        routes[i]->update();
        structure(in, *routes[i], x[i], i);
        figures(in, data, *routes[i], x[i], i);
    }
    vp_cover("end");
}

// Figures of any short route, including time windows of depots and vehicles.
void fixed(Feat f, Acts const &acts, size_t nc, size_t ns, bool rel = false)
{
    Inst in = instance(nc, ns, f, 2);
    in.ve[0].end = 1;
    symFeat(in, f);
    if (rel)
        in.symRelease(1'000'000'000);
    auto const data = in.build();
    Nodes nodes(in);
    S::Route r(data, 0);
    for (auto const &a : acts)
        if (a.type == AT::DEPOT)
        {
            Node d(AT::DEPOT, a.idx);
            r.push_back(&d);
        }
        else
            r.push_back(nodes(a));
    r.update();
    structure(in, r, acts, 0);
    figures(in, data, r, acts, 0);
    vp_cover("end");
}

template <class Prop> void sameAs(Inst const &in, ProblemData const &data, Prop const &prop, Acts const &acts, size_t vt)
{
    vp_assume(wellFormed(in, vt, acts));
    Route const ref(data, conv(acts), vt);
    auto const [dc, ed] = prop.distance();
    auto const [tc, tw] = prop.duration();
    vp_check(dc.get() == ref.distanceCost().get() && ed.get() == ref.excessDistance().get(), "proposed distance");
    vp_check(tc.get() == ref.durationCost().get(), "proposed duration cost");
    vp_check(tw.get() == ref.timeWarp().get(), "proposed time warp");
    for (size_t d = 0; d != in.dims; ++d)
        vp_check(prop.excessLoad(d).get() == ref.excessLoad()[d].get(), "proposed excess load");
    vp_check(prop.fixedVehicleCost().get() == in.ve[vt].fixed, "proposed fixed cost");
    vp_cover("end");
}

bool oneTrip(Acts const &acts, size_t from, size_t to)  // positions in the full route
{
    for (size_t i = from; i < to; ++i)  // a depot only at the end
        if (i == 0 || acts[i - 1].type == AT::DEPOT)
            return false;
    return true;
}

// before(i) + after(j) of one route.
void propose2(Feat f, Acts const &acts, size_t nc, size_t ns)
{
    Inst in = instance(nc, ns, f);
    size_t const n = acts.size();
    size_t const i = vp_choose("before", n + 1), j = vp_choose("after", n + 1) + 1;
    Acts x(acts.begin(), acts.begin() + i);
    for (size_t k = j; k <= n; ++k)
        x.push_back(acts[k - 1]);
    bool ok = false;
    for (auto const &a : x)
        ok = ok || a.type != AT::DEPOT;
    vp_assume(ok && wellFormed(in, 0, x) && distinctClients(x));
    symFeat(in, f);
    auto const data = in.build();
    Nodes nodes(in);
    S::Route r(data, 0);
    for (size_t k = 0; k != n; ++k)
        add(r, nodes, k + 1, acts[k]);
    r.update();
    sameAs(in, data, S::Route::Proposal(r.before(i), r.after(j)), x, 0);
}
// before(i) + segment of another route (with another profile) + after(j).
void propose3(Feat f, Acts const &acts, Acts const &other, size_t nc, size_t ns)
{
    Inst in = instance(nc, ns, f);
    size_t const n = acts.size(), m = other.size();
    size_t const i = vp_choose("before", n + 1), j = vp_choose("after", n + 1) + 1;
    size_t const a = vp_choose("from", m) + 1, b = vp_choose("to", m) + 1;
    vp_assume(a <= b && oneTrip(other, a, b) && i < j);
    Acts x(acts.begin(), acts.begin() + i);
    for (size_t k = a; k <= b; ++k)
        x.push_back(other[k - 1]);
    for (size_t k = j; k <= n; ++k)
        x.push_back(acts[k - 1]);
    bool ok = false;
    for (auto const &y : x)
        ok = ok || y.type != AT::DEPOT;
    vp_assume(ok && wellFormed(in, 0, x));
    symFeat(in, f);
    auto const data = in.build();
    Nodes nodes(in);
    S::Route r(data, 0), q(data, 1);
    for (size_t k = 0; k != n; ++k)
        add(r, nodes, k + 1, acts[k]);
    for (size_t k = 0; k != m; ++k)
        add(q, nodes, k + 1, other[k]);
    r.update();
    q.update();
    sameAs(in, data, S::Route::Proposal(r.before(i), q.between(a, b), r.after(j)), x, 0);
}
// A single new visit.
void propose1(Feat f, Acts const &acts, size_t nc, size_t ns, int what)
{
    Inst in = instance(nc, ns, f);
    size_t const n = acts.size(), i = vp_choose("before", n + 1);
    Acts x = acts;
    if (what == 0)
        x.insert(x.begin() + i, C(nc - 1));
    else if (what == 1)
        x.insert(x.begin() + i, D(0));
    else
    {
        x.insert(x.begin() + i, L(ns - 1));
        x.insert(x.begin() + i, P(ns - 1));
    }
    vp_assume(wellFormed(in, 0, x));
    symFeat(in, f);
    auto const data = in.build();
    Nodes nodes(in);
    S::Route r(data, 0);
    for (size_t k = 0; k != n; ++k)
        add(r, nodes, k + 1, acts[k]);
    r.update();
    if (what == 0)
        sameAs(in, data, S::Route::Proposal(r.before(i), S::ClientSegment(data, nc - 1), r.after(i + 1)), x, 0);
    else if (what == 1)
        sameAs(in, data, S::Route::Proposal(r.before(i), S::DepotSegment(data, 0), r.after(i + 1)), x, 0);
    else
        sameAs(in, data,
               S::Route::Proposal(r.before(i), S::PickupSegment(data, ns - 1), S::DeliverySegment(data, ns - 1), r.after(i + 1)),
               x, 0);
}
// Release times over two trips, with the vehicle's maximum duration and optionally
// the depots' time windows. Unless conflict is set, no client is released after a
// depot closes. The new client goes anywhere into, or replaces one of, the route.
void released(Acts const &acts, size_t nc, bool shift, bool windows, bool depots, bool conflict, bool replace = false)
{
    Inst in = instance(nc, 0, Feat::REL);
    in.ve[0].udur = 0;
    in.ve[0].uot = 0;
    size_t const n = acts.size();
    size_t const i = replace ? vp_choose("at", n) : vp_choose("before", n + 1);
    vp_assume(!replace || acts[i].type == AT::CLIENT);
    Acts x = acts;
    if (replace)
        x[i] = C(nc - 1);
    else
        x.insert(x.begin() + i, C(nc - 1));
    vp_assume(wellFormed(in, 0, x));
    int64_t const B = 1'000'000'000;
    in.symDur(B);
    if (windows)
        in.symClientTw(B);
    in.symRelease(B);
    if (shift)
        in.symShift(B);
    if (depots)
        in.symDepotTw(B);
    if (!conflict)
        for (auto const &c : in.cl)
            for (auto const &d : in.de)
                vp_assume(c.rel <= d.l);
    auto const data = in.build();
    Nodes nodes(in);
    S::Route r(data, 0);
    for (size_t k = 0; k != n; ++k)
        add(r, nodes, k + 1, acts[k]);
    r.update();
    sameAs(in, data, S::Route::Proposal(r.before(i), S::ClientSegment(data, nc - 1), r.after(i + 1 + replace)), x, 0);
}
}  // namespace
extern "C" void h_rel_shift() { released({C(0), D(1)}, 2, true, false, false, false); }
extern "C" void h_rel_shiftwin() { released({C(0), D(1)}, 2, true, true, false, false); }
extern "C" void h_rel_win() { released({C(0), D(1), C(1)}, 3, false, true, false, false, true); }
extern "C" void h_rel_shiftr() { released({C(0), D(1), C(1)}, 3, true, false, false, false, true); }
extern "C" void h_rel_depot() { released({C(0), D(1)}, 2, false, false, true, false); }
extern "C" void h_rel_depotr() { released({C(0), D(1), C(1)}, 3, false, false, true, false, true); }
extern "C" void h_rel_all() { released({C(0), D(1)}, 2, true, true, true, false); }
extern "C" void h_rel_closed() { released({C(0), D(1)}, 2, false, false, true, true); }
#define E4(NAME, ...)                                                                                                  \
    extern "C" void h_##NAME##_load()                                                                                  \
    {                                                                                                                  \
        Feat const f = Feat::LOAD;                                                                                     \
        __VA_ARGS__;                                                                                                   \
    }                                                                                                                  \
    extern "C" void h_##NAME##_time()                                                                                  \
    {                                                                                                                  \
        Feat const f = Feat::TIME;                                                                                     \
        __VA_ARGS__;                                                                                                   \
    }                                                                                                                  \
    extern "C" void h_##NAME##_win()                                                                                   \
    {                                                                                                                  \
        Feat const f = Feat::WIN;                                                                                      \
        __VA_ARGS__;                                                                                                   \
    }                                                                                                                  \
    extern "C" void h_##NAME##_depot()                                                                                 \
    {                                                                                                                  \
        Feat const f = Feat::DEPOT;                                                                                    \
        __VA_ARGS__;                                                                                                   \
    }
E4(edits2, edits(2, f, false))
E4(edits3, edits(3, f, false))
E4(edits4, edits(4, f, false))
E4(edits3s, edits(3, f, true))
E4(edits4s, edits(4, f, true))
E4(from1, edits(1, f, false, {C(0), D(1), C(1), D(1), C(2)}))
E4(from2, edits(2, f, false, {C(0), D(1), C(1)}))
E4(xchg1, exchange(1, f))
E4(xchg2, exchange(2, f))
E4(fix0, fixed(f, {}, 1, 0))
E4(fix1, fixed(f, {C(0)}, 1, 0))
E4(fix2, fixed(f, {C(1), C(0)}, 2, 0))
E4(fix3, fixed(f, {C(1), C(0), C(2)}, 3, 0))
E4(fixt, fixed(f, {C(1), D(1), C(0)}, 2, 0))
E4(fixt3, fixed(f, {C(1), D(1), C(0), D(0), C(2)}, 3, 0))
E4(fixtt, fixed(f, {D(1), C(0), D(0)}, 1, 0))
E4(fixs, fixed(f, {P(0), C(0), L(0)}, 1, 1))
E4(fixst, fixed(f, {P(0), L(0), D(1), C(0)}, 1, 1))
E4(fixrel, fixed(f, {C(1), C(0)}, 2, 0, true))
E4(fixrelt, fixed(f, {C(1), D(1), C(0)}, 2, 0, true))
E4(prop2, propose2(f, {C(0), C(1), C(2)}, 3, 0))
E4(prop2t, propose2(f, {C(0), D(1), C(1)}, 2, 0))
E4(prop2tt, propose2(f, {C(0), D(1), C(1), D(0), C(2)}, 3, 0))
E4(prop2s, propose2(f, {P(0), L(0), C(0)}, 1, 1))
E4(prop3, propose3(f, {C(0), C(1)}, {C(2), C(3)}, 4, 0))
E4(prop3t, propose3(f, {C(0), D(1), C(1)}, {C(2), D(0), C(3)}, 4, 0))
E4(prop3s, propose3(f, {C(0), C(1)}, {C(2), P(0), L(0)}, 3, 1))
E4(prop1c, propose1(f, {C(0), C(1)}, 3, 0, 0))
E4(prop1ct, propose1(f, {C(0), D(1), C(1)}, 3, 0, 0))
E4(prop1d, propose1(f, {C(0), C(1)}, 2, 0, 1))
E4(prop1dt, propose1(f, {C(0), D(1), C(1)}, 2, 0, 1))
E4(prop1s, propose1(f, {C(0), C(1)}, 2, 1, 2))
E4(prop1st, propose1(f, {C(0), D(1), C(1)}, 2, 1, 2))
