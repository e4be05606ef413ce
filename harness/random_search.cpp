// Local search with perturbation, for every sequence of random numbers.
#include "local_search.h"
#include "rng.h"  // VP_RNG

namespace
{
void fixedDist(Inst &in)
{
    for (size_t i = 0; i != in.nlocs; ++i)
        for (size_t j = 0; j != in.nlocs; ++j)
            in.dist[0][i][j] = i == j ? 0 : 3 + (7 * i + 5 * j) % 11;
}
// Any stream, fixed distances, any prizes.
void stream(size_t nc, size_t ns, bool group, size_t lo, size_t hi, std::vector<Plan> const &plans, int which, bool exhaustive = false, bool sym = false)
{
    Inst in(nc, ns, 1, {1, 1});
    if (which == 3)
        in.ve[0].reload = {0};
    if (group)
    {
        in.gr.push_back({{0, 1}, vp_choose("group_required", 2) == 1});
        in.cl[0].req = in.cl[1].req = false;
        in.cl[0].grp = in.cl[1].grp = 0;
    }
    for (size_t i = group ? 2 : 0; i < nc; ++i)
        in.cl[i].req = i % 2 == 0;
    for (auto &x : in.sh)
        x.req = vp_choose("shipment_required", 2) == 1;
    if (sym)
        in.symDist(1'000'000);
    else
        fixedDist(in);
    if (which != 0)
        in.symPrizes(1'000'000);
    auto const data = in.build();
    Plan const &p = plans[vp_choose("plan", plans.size())];
    Solution const before = make(data, p);
    CostEvaluator const ce(loadPen(in), 3, 2);
    Ops o(data);
    if (which == 1)
        o.add<S::Relocate<1>>(), o.add<S::RemoveOptionalClient>(), o.add<S::InsertOptionalClient>();
    if (which == 2)
        o.add<S::RelocateShipment>(), o.add<S::InsertOptionalShipment>(), o.add<S::RemoveOptionalShipment>();
    if (which == 3)
        o.add<S::Swap<1, 1>>(), o.add<S::RemoveAdjacentDepot>();
    if (which == 4)
        o.add<S::Relocate<1>>(), o.add<S::Swap<1, 1>>(), o.add<S::SwapTails>();
    if (which == 5)
        o.add<S::Relocate<2>>(), o.add<S::ReplaceOptionalClient>(), o.add<S::ReplaceGroup>(), o.add<S::RemoveOptionalClient>();
    S::PerturbationManager pm(S::PerturbationParams(lo, hi));
    S::LocalSearch ls(data, complete(in), pm);
    o.into(ls);
    RandomNumberGenerator rng(1);
    ls.shuffle(rng);
    Solution const out = ls(before, ce, exhaustive);
    after(in, data, ce, before, out, exhaustive);
}
std::vector<Plan> const somePlans = {{{{0, {C(0), C(2)}}}}, {}};
std::vector<Plan> const shipPlans = {{{{0, {P(0), C(0), L(0)}}}}, {}};
std::vector<Plan> const tripPlans = {{{{0, {C(0), D(0), C(1)}}, {1, {C(2)}}}}, {{{0, {D(0), C(1)}}}}};
}  // namespace
extern "C" void h_any_repair() { stream(3, 1, true, 0, 3, somePlans, 0); }
extern "C" void h_any_clients() { stream(3, 0, false, 0, 2, somePlans, 1); }
extern "C" void h_any_group() { stream(3, 0, true, 1, 2, somePlans, 1); }
extern "C" void h_any_ship() { stream(1, 2, false, 1, 2, shipPlans, 2); }
extern "C" void h_any_trip() { stream(3, 0, false, 1, 2, tripPlans, 3); }
extern "C" void h_any_full() { stream(3, 0, false, 0, 0, somePlans, 1, true); }

std::vector<Plan> const pairPlans = {{{{0, {C(0), C(1)}}}}, {{{1, {C(1)}}, {0, {C(0)}}}}};
std::vector<Plan> const fourPlans = {{{{0, {C(3), C(0)}}, {1, {C(2)}}}}, {{{0, {C(1)}}, {1, {C(2), P(0), C(3), L(0)}}}}};
extern "C" void h_any_sym2() { stream(2, 0, false, 0, 0, pairPlans, 4, true, true); }
extern "C" void h_any_sym2p() { stream(2, 0, false, 1, 2, pairPlans, 4, false, true); }
extern "C" void h_any_symgroup() { stream(3, 0, true, 1, 1, somePlans, 5, false, true); }
extern "C" void h_any_symship() { stream(1, 1, false, 1, 1, shipPlans, 2, false, true); }
extern "C" void h_any_symtrip() { stream(2, 0, false, 1, 1, {{{{0, {C(0), D(0), C(1)}}}}}, 3, false, true); }
extern "C" void h_any_four() { stream(4, 1, true, 2, 3, fourPlans, 0); }
extern "C" void h_any_fourops() { stream(4, 0, true, 0, 2, somePlans, 5); }
