// Operators for shipments.
#include "ops.h"

#include "search/InsertOptionalShipment.h"
#include "search/RelocateDelivery.h"
#include "search/RelocatePickup.h"
#include "search/RelocateShipment.h"
#include "search/RemoveOptionalShipment.h"
#include "search/ReplaceOptionalShipment.h"

namespace
{
constexpr Opts CHANGES{false, true, true};
using Cands = std::vector<std::vector<Acts>>;

// Shipments 0 and 1 planned in two routes, 2 is not.
Inst instance(Feat f, size_t nc, size_t ns)
{
    Inst in(nc, ns, 2, {2, 1}, f == Feat::LOAD, 2);
    in.ve[1].start = 1;
    in.ve[1].prof = 1;
    in.ve[1].udist = 3;
    if (f == Feat::TIME || f == Feat::WIN)
        in.ve[0].udur = f == Feat::TIME, in.ve[1].udur = 2;
    for (size_t i = 0; i != ns; ++i)
        in.sh[i].req = i < 2 && vp_bool(nm("required", i).c_str());
    return in;
}
Plan plan()
{
    Plan p;
    p.routes.push_back({0, {P(0), C(0), L(0), C(1)}});
    p.routes.push_back({1, {P(1), L(1)}});
    return p;
}
Refs starts() { return Refs{at(0, 0), at(1, 0), at(2, 0)}; }
Refs all() { return clients(2) + pickups(2) + deliveries(2) + starts(); }

void erase(Acts &a, Act x)
{
    for (size_t i = 0; i != a.size(); ++i)
        if (a[i].type == x.type && a[i].idx == x.idx)
        {
            a.erase(a.begin() + i);
            return;
        }
}
size_t tripEnd(Acts const &a, size_t from)
{
    while (from < a.size() && a[from].type != AT::DEPOT)
        from++;
    return from;
}

Cands removal(ProblemData const &data, S::Solution const &s, Node *U)
{
    if (!U->isPickup() || !U->route() || data.shipment(U->idx()).required)
        return {};
    auto x = listing(s);
    auto &r = x[indexOf(s, U->route())];
    erase(r, P(U->idx()));
    erase(r, L(U->idx()));
    return {x};
}
Cands replacement(ProblemData const &data, S::Solution const &s, Node *U, Node *V)
{
    if (!U->isPickup() || U->route() || !V->route() || !V->isShipment() || data.shipment(V->idx()).required)
        return {};
    auto x = listing(s);
    for (auto &a : x[indexOf(s, V->route())])
        if ((a.type == AT::PICKUP || a.type == AT::DELIVERY) && a.idx == V->idx())
            a.idx = U->idx();
    return {x};
}
void removeShip(Feat f)
{
    Inst in = instance(f, 2, 3);
    unaryBest<S::RemoveOptionalShipment>(in, plan(), f, pickups(3) + clients(1), CHANGES, removal);
}
void removeTrip(Feat f)
{
    Inst in = instance(f, 0, 2);
    in.ve[0].reload = {1};
    Plan p;
    p.routes.push_back({0, {P(0), L(0), D(1), P(1), L(1)}});
    unaryBest<S::RemoveOptionalShipment>(in, p, f, pickups(2), CHANGES, removal);
}
void replaceShip(Feat f)
{
    Inst in = instance(f, 2, 3);
    binaryBest<S::ReplaceOptionalShipment>(in, plan(), f, pickups(3), all(), CHANGES, replacement);
}
// Pickup right after V, delivery anywhere later in that trip.
Cands insertions(ProblemData const &, S::Solution const &s, Node *U, Node *V)
{
    Cands r;
    if (!U->isPickup() || U->route() || !V->route())
        return r;
    auto const base = listing(s);
    size_t const rv = indexOf(s, V->route()), k = V->pos();
    for (size_t j = k; j <= tripEnd(base[rv], k); ++j)
    {
        auto x = base;
        x[rv].insert(x[rv].begin() + j, L(U->idx()));
        x[rv].insert(x[rv].begin() + k, P(U->idx()));
        r.push_back(x);
    }
    return r;
}
void insertShip(Feat f, bool trip)
{
    Inst in = instance(f, 2, 3);
    Plan p = plan();
    if (trip)
    {
        in.ve[0].reload = {1};
        p.routes[0].second = {P(0), L(0), D(1), C(0), C(1)};
    }
    Opts o = CHANGES;
    o.best = f != Feat::WIN;
    binaryBest<S::InsertOptionalShipment>(in, p, f, pickups(3), all(), o, insertions);
}
void insertTiny(Feat f, bool trip)
{
    Inst in = instance(f, 2, 1);
    in.sh[0].req = false;
    Plan p;
    if (trip)
    {
        in.ve[0].reload = {1};
        p.routes.push_back({0, {C(0), D(1), C(1)}});
    }
    else
        p.routes.push_back({0, {C(1)}}), p.routes.push_back({1, {C(0)}});
    binaryBest<S::InsertOptionalShipment>(in, p, f, pickups(1), clients(2) + starts(), CHANGES, insertions);
}
Cands relocations(ProblemData const &, S::Solution const &s, Node *U, Node *V)
{
    Cands r;
    if (!U->isPickup() || !U->route() || U->route() == V->route())
        return r;
    auto base = listing(s);
    size_t const ru = indexOf(s, U->route()), rv = indexOf(s, V->route()), k = V->pos();
    erase(base[ru], P(U->idx()));
    erase(base[ru], L(U->idx()));
    for (size_t j = k; j <= tripEnd(base[rv], k); ++j)
    {
        auto x = base;
        x[rv].insert(x[rv].begin() + j, L(U->idx()));
        x[rv].insert(x[rv].begin() + k, P(U->idx()));
        r.push_back(x);
    }
    return r;
}
void relocateShip(Feat f, bool trip)
{
    Inst in = instance(f, 2, 2);
    Plan p = plan();
    if (trip)
    {
        in.ve[0].reload = {1};
        p.routes[0].second = {P(0), L(0), D(1), C(0), C(1)};
    }
    Opts o;
    o.best = f != Feat::WIN;
    binaryBest<S::RelocateShipment>(in, p, f, pickups(2), all(), o, relocations);
}
void relocateTiny(Feat f, bool trip)
{
    Inst in = instance(f, 1, 1);
    Plan p;
    if (trip)
    {
        in.ve[0].reload = {1};
        p.routes.push_back({0, {D(1), C(0)}});
        p.routes.push_back({1, {P(0), L(0)}});
    }
    else
        p.routes.push_back({0, {P(0), L(0)}}), p.routes.push_back({1, {C(0)}});
    binaryBest<S::RelocateShipment>(in, p, f, pickups(1), clients(1) + starts(), {}, relocations);
}
void relocateShipCache()
{
    Inst in = instance(Feat::DIST, 1, 2);
    Plan p;
    p.routes.push_back({0, {P(0), L(0), P(1), L(1)}});
    p.routes.push_back({1, {C(0)}});
    cached<S::RelocateShipment>(in, p, Feat::DIST, pickups(2), Refs{at(C(0)), at(1, 0), at(L(0))});
}
// All places for the pickup between the trip's start and the delivery.
Cands pickupPlaces(ProblemData const &, S::Solution const &s, Node *U)
{
    Cands r;
    if (!U->isPickup() || !U->route())
        return r;
    auto base = listing(s);
    size_t const ru = indexOf(s, U->route());
    erase(base[ru], P(U->idx()));
    auto const &a = base[ru];
    size_t d = 0;
    while (!(a[d].type == AT::DELIVERY && a[d].idx == U->idx()))
        d++;
    size_t first = d;
    while (first > 0 && a[first - 1].type != AT::DEPOT)
        first--;
    for (size_t j = first; j <= d; ++j)
    {
        auto x = base;
        x[ru].insert(x[ru].begin() + j, P(U->idx()));
        r.push_back(x);
    }
    return r;
}
Cands deliveryPlaces(ProblemData const &, S::Solution const &s, Node *U)
{
    Cands r;
    if (!U->isPickup() || !U->route())
        return r;
    auto base = listing(s);
    size_t const ru = indexOf(s, U->route());
    erase(base[ru], L(U->idx()));
    auto const &a = base[ru];
    size_t d = 0;
    while (!(a[d].type == AT::PICKUP && a[d].idx == U->idx()))
        d++;
    for (size_t j = d + 1; j <= tripEnd(a, d + 1); ++j)
    {
        auto x = base;
        x[ru].insert(x[ru].begin() + j, L(U->idx()));
        r.push_back(x);
    }
    return r;
}
Inst single(Feat f, size_t nc, size_t ns, size_t nd)
{
    Inst in(nc, ns, nd, {1}, f == Feat::LOAD);
    in.ve[0].udur = f == Feat::TIME;
    return in;
}
void within(Feat f, bool pickup, int which)
{
    Inst in = which == 0 ? single(f, 2, 1, 1) : which == 1 ? single(f, 2, 1, 2) : which == 2 ? single(f, 0, 2, 1) : single(f, 4, 1, 2);
    Plan p;
    Acts a;
    if (which == 0)
        a = {C(0), P(0), C(1), L(0)};
    else if (which == 1)
        a = {C(0), D(1), C(1), P(0), L(0)};
    else if (which == 2)
        a = {P(0), P(1), L(0), L(1)};
    else
    {
        in.ve[0].reload = {1, 0};
        a = pickup ? Acts{C(0), D(1), C(1), P(0), C(2), L(0), D(0), C(3)} : Acts{C(0), D(1), P(0), C(1), L(0), C(2), D(0), C(3)};
    }
    if (which == 0 && !pickup)
        a = {P(0), C(1), L(0), C(0)};
    if (which == 1)
    {
        in.ve[0].reload = {1};
        if (!pickup)
            a = {P(0), L(0), C(0), D(1), C(1)};
    }
    p.routes.push_back({0, a});
    Refs const us = pickups(in.sh.size());
    if (pickup)
        unaryBest<S::RelocatePickup>(in, p, f, us, {}, pickupPlaces);
    else
        unaryBest<S::RelocateDelivery>(in, p, f, us, {}, deliveryPlaces);
}
}  // namespace
#define E(NAME, ...)                                                                                                   \
    extern "C" void h_##NAME##_load()                                                                                  \
    {                                                                                                                  \
        Feat const f = Feat::LOAD;                                                                                     \
        __VA_ARGS__;                                                                                                   \
    }                                                                                                                  \
    extern "C" void h_##NAME##_time()                                                                                  \
    {                                                                                                                  \
        Feat const f = Feat::TIME;                                                                                     \
        __VA_ARGS__;                                                                                                   \
    }                                                                                                                  \
    extern "C" void h_##NAME##_win()                                                                                   \
    {                                                                                                                  \
        Feat const f = Feat::WIN;                                                                                      \
        __VA_ARGS__;                                                                                                   \
    }
E(sremove, removeShip(f))
E(sremovetrip, removeTrip(f))
E(sreplace, replaceShip(f))
E(sinsert, insertShip(f, false))
E(sinserttrip, insertShip(f, true))
E(srelocate, relocateShip(f, false))
E(srelocatetrip, relocateShip(f, true))
E(sinsert1, insertTiny(f, false))
E(sinsert1trip, insertTiny(f, true))
E(srelocate1, relocateTiny(f, false))
E(srelocate1trip, relocateTiny(f, true))
E(pickup, within(f, true, 0))
E(pickuptrip, within(f, true, 1))
E(pickuptwo, within(f, true, 2))
E(pickupmid, within(f, true, 3))
E(delivery, within(f, false, 0))
E(deliverymid, within(f, false, 3))
E(deliverytrip, within(f, false, 1))
E(deliverytwo, within(f, false, 2))
extern "C" void h_srelocate_cache() { relocateShipCache(); }
