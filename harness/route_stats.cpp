// P02: distance, load, prize, fixed-cost and duration totals of a route are
// those of its visit sequence, for every well-formed sequence.
#include "inst.h"

namespace
{
constexpr int64_t B = 1'000'000'000;

void check(Inst const &in, size_t vt, Acts const &acts)
{
    auto const data = in.build();
    Route const r(data, conv(acts), vt);
    auto const &v = in.ve[vt];

    int64_t const dist = in.total(in.dist, vt, acts);
    vp_check(r.distance().get() == dist, "distance is the sum over consecutive visits");
    vp_check(r.distanceCost().get() == v.udist * dist, "distance cost");
    vp_check(r.excessDistance().get() == imax(dist - v.maxdist, 0), "excess distance");
    vp_check(r.hasExcessDistance() == (dist > v.maxdist), "has excess distance");
    vp_check(r.travelDuration().get() == in.total(in.dur, vt, acts), "travel duration");
    vp_check(r.serviceDuration().get() == in.serviceTotal(vt, acts), "service duration");
    vp_check(r.fixedVehicleCost().get() == v.fixed, "fixed vehicle cost");
    vp_check(r.prizes().get() == in.prizes(acts), "prizes collected");

    bool excess = false;
    vp_check(r.excessLoad().size() == in.dims && r.delivery().size() == in.dims && r.pickup().size() == in.dims,
             "one entry per load dimension");
    for (size_t d = 0; d != in.dims; ++d)
    {
        int64_t const ex = in.excessLoad(vt, acts, d);
        vp_check(r.excessLoad()[d].get() == ex, "excess load per dimension");
        excess = excess || ex > 0;
        int64_t del = 0, pick = v.init[d];
        for (auto const &a : acts)
            if (a.type == AT::CLIENT)
            {
                del += in.cl[a.idx].del[d];
                pick += in.cl[a.idx].pick[d];
            }
        vp_check(r.delivery()[d].get() == del, "delivered amount");
        vp_check(r.pickup()[d].get() == pick, "picked up amount");
    }
    vp_check(r.hasExcessLoad() == excess, "has excess load");
    vp_check(r.isFeasible() == (!excess && dist <= v.maxdist && r.timeWarp().get() == 0), "feasibility");

    size_t nc = 0, ns = 0, nd = 2;
    for (auto const &a : acts)
    {
        nc += a.type == AT::CLIENT;
        ns += a.type == AT::PICKUP;
        nd += a.type == AT::DEPOT;
    }
    vp_check(r.numClients() == nc, "number of clients");
    vp_check(r.numShipments() == ns, "number of shipments");
    vp_check(r.numDepots() == nd && r.numTrips() == nd - 1, "number of depots and trips");
    vp_check(r.size() == acts.size() + 2, "number of activities");
    vp_check(r.empty() == (nc == 0 && ns == 0), "emptiness");
    vp_check(r.vehicleType() == vt && r.startDepot() == v.start && r.endDepot() == v.end, "vehicle and depots");
    for (size_t i = 0; i != acts.size(); ++i)
        vp_check(r[i + 1].type() == acts[i].type && r[i + 1].idx() == acts[i].idx, "activities in order");

    // Zero-weight penalties leave the plain objective of a feasible route.
    CostEvaluator const ce(std::vector<double>(in.dims, 3), 2, 5);
    int64_t obj = r.empty() ? 0
                            : v.udist * dist + r.durationCost().get() + v.fixed + 2 * r.timeWarp().get()
                                  + 5 * imax(dist - v.maxdist, 0);
    if (!r.empty())
        for (size_t d = 0; d != in.dims; ++d)
            obj += 3 * in.excessLoad(vt, acts, d);
    vp_check(ce.penalisedCost(r).get() == obj, "penalised cost of the route");
    vp_cover("end");
    vp_observe(dist);
    vp_observe(r.prizes().get());
}

// Any well-formed sequence of length n: two clients, one shipment, two
// depots, two vehicle types that differ in profile and depots.
void any(size_t n, size_t nc, size_t ns, size_t dims, size_t vt)
{
    Inst in(nc, ns, 2, {1, 1}, dims, 2);
    in.ve[0].end = 1;
    in.ve[0].udist = 3;
    in.ve[0].udur = 2;
    in.ve[1].start = 1;
    in.ve[1].prof = 1;
    in.ve[1].udist = 0;
    in.ve[1].maxReloads = 1;
    in.ve[0].reload = {1};
    in.ve[1].reload = {0};
    Acts al;
    for (size_t i = 0; i != nc; ++i)
        al.push_back(C(i));
    for (size_t i = 0; i != ns; ++i)
    {
        al.push_back(P(i));
        al.push_back(L(i));
    }
    al.push_back(D(0));
    al.push_back(D(1));
    auto const acts = chooseActs("visit", n, al);
    vp_assume(distinctClients(acts) && wellFormed(in, vt, acts));
    in.symDist(B);
    in.symLoads(B);
    in.symMaxDist(B);
    in.symFixed(B);
    in.symPrizes(B);
    in.symDur(B);
    in.symClientSvc(B);
    in.symShipSvc(B);
    in.symDepotSvc(B);
    check(in, vt, acts);
}
}  // namespace

extern "C" void h_stats_len0() { any(0, 2, 1, 2, 0); }
extern "C" void h_stats_len1() { any(1, 2, 1, 2, 1); }
extern "C" void h_stats_len2() { any(2, 2, 1, 2, 0); }
extern "C" void h_stats_len3() { any(3, 2, 1, 1, 1); }
extern "C" void h_stats_len3b() { any(3, 2, 1, 2, 0); }
extern "C" void h_stats_len4() { any(4, 2, 1, 1, 0); }
extern "C" void h_stats_len4s() { any(4, 0, 2, 1, 0); }
extern "C" void h_stats_len4s1() { any(4, 1, 2, 1, 0); }
extern "C" void h_stats_len5() { any(5, 3, 1, 1, 0); }
extern "C" void h_stats_len6s() { any(6, 1, 2, 1, 0); }
