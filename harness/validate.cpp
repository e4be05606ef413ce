// P03: routes and solutions are accepted if, and only if, they are well formed.
#include "inst.h"

namespace
{
// Any sequence over all activities, including ones that do not exist: type and
// index of each visit are symbolic.
void route(size_t n, size_t nc, size_t ns, int64_t maxReloads, int mask = 15, bool anyType = false)
{
    Inst in(nc, ns, 2, {1});
    in.ve[0].maxReloads = maxReloads;
    if (maxReloads != 0 || vp_bool("reloads"))
        in.ve[0].reload = {1};
    Acts acts;
    for (size_t i = 0; i != n; ++i)
    {
        int64_t const t = vp_i64(nm("type", i).c_str(), 0, 3);
        if (mask != 15)
            vp_assume(t != 0 || (mask & 1)), vp_assume(t != 1 || (mask & 2)), vp_assume(t < 2 || (mask & 4));
        acts.push_back({static_cast<AT>(t), (size_t)vp_i64(nm("idx", i).c_str(), 0, IMAX)});
    }
    auto const data = in.build();
    bool accepted = true;
    size_t const vt = anyType ? vp_i64("vehicle_type", 0, IMAX) : 0;
    try
    {
        Route const r(data, conv(acts), vt);
    }
    catch (std::invalid_argument const &)
    {
        accepted = false;
    }
    vp_check(accepted == (vt == 0 && wellFormed(in, 0, acts)), "a route is accepted iff it is well formed");
    vp_cover(accepted ? "accepted" : "rejected");
}

// Solutions: k routes, each with up to two visits and any vehicle type.
void solution(size_t k, size_t len, bool group, bool ship)
{
    Inst in(3, ship ? 1 : 0, 1, {1, 1});
    in.ve[0].num = vp_concrete(vp_choose("available", 2)) + 1;
    if (group)
    {
        in.gr.emplace_back();
        in.gr[0].clients = {0, 1};
        in.gr[0].req = vp_choose("group_required", 2);
        for (auto i : {0, 1})
        {
            in.cl[i].grp = 0;
            in.cl[i].req = false;
        }
    }
    auto const data = in.build();
    std::vector<Route> routes;
    std::vector<size_t> used(2, 0), seen(3, 0);
    size_t seenShip = 0;
    bool valid = k <= (size_t)in.ve[0].num + 1;
    for (size_t r = 0; r != k; ++r)
    {
        size_t const vt = vp_choose(nm("vehicle_type", r).c_str(), 2);
        used[vt]++;
        Acts acts;
        size_t const n = vp_choose(nm("visits", r).c_str(), len + 1);
        for (size_t i = 0; i != n; ++i)
        {
            size_t const c = vp_choose(nm("visit", r, i).c_str(), ship ? 4 : 3);
            if (c == 3)
            {
                acts.push_back(P(0));
                acts.push_back(L(0));
                seenShip++;
            }
            else
            {
                acts.push_back(C(c));
                seen[c]++;
            }
        }
        valid = valid && n > 0;
        if (!wellFormed(in, vt, acts))
            vp_assume(false);
        routes.emplace_back(data, conv(acts), vt);
    }
    for (auto s : seen)
        valid = valid && s <= 1;
    valid = valid && seenShip <= 1;
    if (group)
        valid = valid && seen[0] + seen[1] <= 1;
    for (size_t t = 0; t != 2; ++t)
        valid = valid && used[t] <= (size_t)in.ve[t].num;

    bool accepted = true;
    try
    {
        Solution const s(data, routes);
        size_t missing = 0;
        for (size_t c = 0; c != 3; ++c)
            missing += in.cl[c].req && seen[c] == 0;
        vp_check(s.numMissingClients() == missing, "missing clients");
        vp_check(s.numMissingShipments() == (ship && seenShip == 0), "missing shipments");
        vp_check(s.numMissingGroups() == (group && in.gr[0].req && seen[0] + seen[1] == 0), "missing groups");
    }
    catch (std::runtime_error const &)
    {
        accepted = false;
    }
    vp_check(accepted == valid, "a solution is accepted iff it is well formed");
    vp_cover(accepted ? "accepted" : "rejected");
}
}  // namespace

extern "C" void h_vroute_1() { route(1, 1, 1, 0); }
extern "C" void h_vroute_type() { route(1, 1, 1, 1, 15, true); }
extern "C" void h_vroute_2() { route(2, 1, 1, 0); }
extern "C" void h_vroute_3() { route(3, 1, 1, 1); }
extern "C" void h_vroute_4() { route(4, 1, 1, 1); }
extern "C" void h_vroute_4s() { route(4, 0, 2, -1, 4); }
extern "C" void h_vroute_5d() { route(5, 0, 1, 3, 5); }
extern "C" void h_vroute_6s() { route(6, 0, 2, 2, 5); }
extern "C" void h_vsol_1() { solution(1, 3, false, true); }
extern "C" void h_vsol_2() { solution(2, 2, false, false); }
extern "C" void h_vsol_2g() { solution(2, 2, true, false); }
extern "C" void h_vsol_2s() { solution(2, 2, false, true); }
extern "C" void h_vsol_3() { solution(3, 1, false, false); }
extern "C" void h_vsol_3s() { solution(3, 1, false, true); }
