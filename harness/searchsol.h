#ifndef SEARCHSOL_H
#define SEARCHSOL_H
// Shared by the harnesses of the search's solution representation.
#include "ops.h"

#include "search/PerturbationManager.h"
#include "search/SearchSpace.h"

namespace
{
using Neighbours = S::SearchSpace::Neighbours;
Activity A(Act a) { return Activity(a.type, a.idx); }

// Everything neighbours everything else.
Neighbours complete(Inst const &in)
{
    Neighbours nb;
    Acts all;
    for (size_t i = 0; i != in.cl.size(); ++i)
        all.push_back(C(i));
    for (size_t i = 0; i != in.sh.size(); ++i)
    {
        all.push_back(P(i));
        all.push_back(L(i));
    }
    for (auto const &u : all)
    {
        if (u.type == AT::DELIVERY)
            continue;
        std::vector<Activity> v;
        for (auto const &w : all)
        {
            bool const same = w.idx == u.idx && (w.type == u.type || (u.type == AT::PICKUP && w.type == AT::DELIVERY));
            if (!same)
                v.push_back(A(w));
        }
        nb[A(u)] = v;
    }
    return nb;
}

// Each node knows where it is, and each route lists nodes that agree.
void consistent(Inst const &in, S::Solution &s)
{
    size_t listed = 0, planned = 0;
    for (auto &r : s.routes)
    {
        size_t trip = 0;
        for (size_t i = 0; i != r.size(); ++i)
        {
            Node *x = r[i];
            trip += i && x->isDepot();
            vp_check(x->route() == &r && x->pos() == i && x->trip() == trip, "visits know their place");
            listed += !x->isDepot();
            if (!x->isDepot())
                vp_check(s[x->activity()] == x, "routes hold the solution's own visits");
        }
    }
    for (auto &c : s.clients)
        planned += c.route() != nullptr;
    for (auto &[p, d] : s.shipments)
    {
        planned += (p.route() != nullptr) + (d.route() != nullptr);
        vp_check(p.route() == d.route(), "pickup and delivery are in the same route");
        if (p.route())
            vp_check(p.pos() < d.pos() && p.trip() == d.trip(), "pickup precedes delivery in the same trip");
    }
    vp_check(listed == planned, "unplanned visits are in no route");
}
Inst instance(size_t nc, size_t ns, Feat f)
{
    Inst in(nc, ns, 2, {2, 1}, f == Feat::LOAD, 2);
    in.ve[0].reload = {1, 0};
    in.ve[1].start = 1;
    in.ve[1].prof = 1;
    in.ve[1].udist = 3;
    in.ve[1].udur = f == Feat::TIME || f == Feat::WIN;
    return in;
}
}  // namespace
#endif
