// Operators that insert or remove reload depots.
#include "ops.h"

#include "search/RelocateWithDepot.h"
#include "search/RemoveAdjacentDepot.h"

namespace
{
using Cands = std::vector<std::vector<Acts>>;

Inst instance(Feat f, size_t nc, size_t ns)
{
    Inst in(nc, ns, 2, {2, 1}, f == Feat::LOAD, 2);
    in.ve[0].reload = {1, 0};
    in.ve[1].reload = {1};
    in.ve[1].maxReloads = 1;
    in.ve[1].start = 1;
    in.ve[1].prof = 1;
    in.ve[1].udist = 3;
    if (f == Feat::TIME || f == Feat::WIN)
        in.ve[0].udur = f == Feat::TIME, in.ve[1].udur = 2;
    return in;
}
Refs starts() { return Refs{at(0, 0), at(1, 0), at(2, 0)}; }

// U after V, with a reload depot just before or after it.
Cands places(ProblemData const &data, S::Solution const &s, Node *U, Node *V)
{
    Cands r;
    if (!U->isClient() || !U->route() || V->route()->empty() || U == n(V))
        return r;
    auto const *rte = V->route();
    if (rte->numTrips() == rte->maxTrips())
        return r;
    if (U->route() == rte && U->trip() != V->trip())
        return r;
    auto const base = listing(s);
    size_t const ru = indexOf(s, U->route()), rv = indexOf(s, rte);
    int open = 0;
    for (size_t i = 0; i != V->pos(); ++i)
        open += (base[rv][i].type == AT::PICKUP) - (base[rv][i].type == AT::DELIVERY);
    if (open)
        return r;
    for (auto const d : data.vehicleType(rte->vehicleType()).reloadDepots)
        for (bool const first : {true, false})
        {
            if (first ? V->isReloadDepot() : n(V)->isReloadDepot())
                continue;
            auto x = base;
            x[ru].erase(x[ru].begin() + (U->pos() - 1));
            size_t const k = V->pos() - (ru == rv && U->pos() < V->pos());
            x[rv].insert(x[rv].begin() + k, C(U->idx()));
            x[rv].insert(x[rv].begin() + k + !first, D(d));
            r.push_back(x);
        }
    return r;
}
void withDepot(Feat f, int which)
{
    size_t const nc = which < 4 ? 3 : 2;
    Inst in = instance(f, nc, which == 2 || which == 7);
    Plan p;
    Refs us = clients(nc), vs = clients(nc) + starts();
    if (which == 4)
        p.routes.push_back({0, {C(1), C(0)}});
    if (which == 5)
    {
        p.routes.push_back({0, {C(1)}});
        p.routes.push_back({1, {C(0)}});
    }
    if (which == 6)
    {
        p.routes.push_back({0, {C(1), D(0)}});
        p.routes.push_back({1, {C(0)}});
        vs = vs + Refs{at(0, 2)};
    }
    if (which == 7)
    {
        p.routes.push_back({0, {C(1)}});
        p.routes.push_back({1, {P(0), L(0), C(0)}});
        us = Refs{at(C(1))};
        vs = Refs{at(2, 0)} + pickups(1) + deliveries(1);
    }
    if (which == 0)  // different and same route
    {
        p.routes.push_back({0, {C(1), C(0)}});
        p.routes.push_back({1, {C(2)}});
    }
    else if (which == 1)  // reload depots already there
    {
        p.routes.push_back({0, {C(1), D(1), C(0)}});
        p.routes.push_back({1, {D(1), C(2)}});
        vs = vs + Refs{at(0, 2), at(2, 1)};
    }
    else if (which == 2)  // shipments
    {
        p.routes.push_back({0, {P(0), C(1), L(0), C(0)}});
        p.routes.push_back({1, {C(2)}});
        vs = vs + pickups(1) + deliveries(1);
    }
    else if (which == 3)  // one longer route
    {
        p.routes.push_back({0, {C(1), C(0), C(2)}});
        vs = clients(3) + Refs{at(0, 0)};
    }
    if (which >= 4)
        in.ve[0].reload = {1};
    Opts o;
    o.best = f != Feat::WIN;
    binaryBest<S::RelocateWithDepot>(in, p, f, us, vs, o, places);
}
void withDepotCache()
{
    Inst in = instance(Feat::DIST, 3, 0);
    Plan p;
    p.routes.push_back({0, {C(1), C(0)}});
    p.routes.push_back({1, {C(2)}});
    cached<S::RelocateWithDepot>(in, p, Feat::DIST, Refs{at(C(0)), at(C(1))}, Refs{at(C(2)), at(C(0)), at(2, 0)});
}
Cands without(ProblemData const &, S::Solution const &s, Node *U)
{
    Cands r;
    if (!U->route())
        return r;
    auto const base = listing(s);
    size_t const ru = indexOf(s, U->route());
    if (p(U)->isReloadDepot())
    {
        r.push_back(base);
        r.back()[ru].erase(r.back()[ru].begin() + (U->pos() - 2));
    }
    if (n(U)->isReloadDepot())
    {
        r.push_back(base);
        r.back()[ru].erase(r.back()[ru].begin() + U->pos());
    }
    return r;
}
void removeDepot(Feat f, int which)
{
    Inst in = instance(f, 3, which == 2);
    Plan p;
    Refs us = clients(3);
    if (which == 0)
    {
        p.routes.push_back({0, {C(1), D(1), C(0)}});
        p.routes.push_back({1, {D(1), C(2)}});
    }
    else if (which == 1)
        p.routes.push_back({0, {C(1), D(1), C(0), D(0), D(1)}});
    else
    {
        p.routes.push_back({0, {P(0), C(0), L(0), D(0), C(1)}});
        us = us + pickups(1);
    }
    Opts o;
    o.strict = false;
    unaryBest<S::RemoveAdjacentDepot>(in, p, f, us, o, without);
}
}  // namespace
#define E(NAME, ...)                                                                                                   \
    extern "C" void h_##NAME##_load()                                                                                  \
    {                                                                                                                  \
        Feat const f = Feat::LOAD;                                                                                     \
        __VA_ARGS__;                                                                                                   \
    }                                                                                                                  \
    extern "C" void h_##NAME##_time()                                                                                  \
    {                                                                                                                  \
        Feat const f = Feat::TIME;                                                                                     \
        __VA_ARGS__;                                                                                                   \
    }                                                                                                                  \
    extern "C" void h_##NAME##_win()                                                                                   \
    {                                                                                                                  \
        Feat const f = Feat::WIN;                                                                                      \
        __VA_ARGS__;                                                                                                   \
    }
E(depot, withDepot(f, 0))
E(depottrip, withDepot(f, 1))
E(depotship, withDepot(f, 2))
E(depotone, withDepot(f, 3))
E(depot4, withDepot(f, 4))
E(depot5, withDepot(f, 5))
E(depot6, withDepot(f, 6))
E(depot7, withDepot(f, 7))
E(undepot, removeDepot(f, 0))
E(undepot2, removeDepot(f, 1))
E(undepotship, removeDepot(f, 2))
extern "C" void h_depot_cache() { withDepotCache(); }
