// What depends on random numbers, for every sequence of them: the random number
// generator is replaced by one that draws anything (VP_RNG, see vplib.py).
#include "searchsol.h"

#include "rng.h"  // VP_RNG
#include "search/LocalSearch.h"

namespace
{
// ---- initial solutions -----------------------------------------------------
void initial(size_t nc, size_t ns, std::vector<std::vector<size_t>> groups, std::vector<int64_t> vehicles)
{
    Inst in(nc, ns, 1, vehicles);
    for (auto const &g : groups)
    {
        in.gr.emplace_back();
        in.gr.back().clients = g;
        in.gr.back().req = vp_choose(nm("group_required", in.gr.size()).c_str(), 2);
        for (auto c : g)
            in.cl[c].grp = in.gr.size() - 1, in.cl[c].req = false;
    }
    for (size_t i = 0; i != nc; ++i)
        if (in.cl[i].grp < 0)
            in.cl[i].req = vp_choose(nm("required", i).c_str(), 2);
    for (size_t i = 0; i != ns; ++i)
        in.sh[i].req = vp_choose(nm("ship_required", i).c_str(), 2);
    for (size_t i = 0; i != in.nlocs; ++i)
        for (size_t j = 0; j != in.nlocs; ++j)
            in.dist[0][i][j] = i == j ? 0 : 1 + i + 2 * j;
    auto const data = in.build();
    RandomNumberGenerator rng(1);
    Solution const s(data, rng);
    std::vector<int64_t> used(vehicles.size(), 0);
    std::vector<size_t> clients(nc, 0), picked(ns, 0), delivered(ns, 0);
    for (auto const &r : s.routes())
    {
        used[r.vehicleType()]++;
        size_t visits = 0;
        Acts acts;
        for (auto const &v : r)
        {
            acts.push_back({v.type(), v.idx()});
            if (v.isClient())
                clients[v.idx()]++, visits++;
            if (v.isPickup())
                picked[v.idx()]++, visits++;
            if (v.isDelivery())
                delivered[v.idx()]++;
        }
        vp_check(visits > 0, "no empty routes");
    }
    for (size_t i = 0; i != vehicles.size(); ++i)
        vp_check(used[i] <= vehicles[i], "no more vehicles are used than there are");
    for (size_t i = 0; i != nc; ++i)
        vp_check(clients[i] <= 1 && (clients[i] == 1 || !in.cl[i].req), "required clients are visited, none twice");
    for (size_t i = 0; i != ns; ++i)
        vp_check(picked[i] == delivered[i] && picked[i] <= 1 && (picked[i] == 1 || !in.sh[i].req),
                 "required shipments are carried, none twice");
    for (auto const &g : in.gr)
    {
        size_t n = 0;
        for (auto c : g.clients)
            n += clients[c];
        vp_check(n <= 1 && (n == 1 || !g.req), "one member of required groups, at most one of others");
    }
    vp_check(s.isComplete(), "initial solutions are complete");
    vp_cover("end");
}
// ---- orders ------------------------------------------------------------------
void orders(size_t nc, size_t ns, std::vector<int64_t> vehicles)
{
    Inst in(nc, ns, 1, vehicles);
    auto const data = in.build();
    S::SearchSpace space(data, complete(in));
    RandomNumberGenerator rng(1);
    space.shuffle(rng);
    auto const &order = space.activityOrder();
    vp_check(order.size() == nc + ns, "as many in the search order as there are");
    for (size_t i = 0; i != nc; ++i)
        vp_check(std::count(order.begin(), order.end(), A(C(i))) == 1, "each client once in the search order");
    for (size_t i = 0; i != ns; ++i)
        vp_check(std::count(order.begin(), order.end(), A(P(i))) == 1, "each pickup once in the search order");
    auto const &types = space.vehTypeOrder();
    vp_check(types.size() == vehicles.size(), "as many vehicle types as there are");
    int64_t offset = 0;
    for (size_t i = 0; i != vehicles.size(); ++i)
    {
        vp_check(std::count(types.begin(), types.end(), std::pair<size_t, size_t>(i, offset)) == 1, "each vehicle type once, with its own vehicles");
        offset += vehicles[i];
    }
    vp_cover("end");
}
// Every order can come out, and nothing gets lost.
void shuffled(size_t n)
{
    RandomNumberGenerator rng(1);
    std::vector<size_t> v(n);
    for (size_t i = 0; i != n; ++i)
        v[i] = i;
    rng.shuffle(v.begin(), v.end());
    std::string name = "order";
    for (size_t i = 0; i != n; ++i)
    {
        vp_check(std::count(v.begin(), v.end(), i) == 1, "shuffling keeps every element once");
        name += std::to_string(v[i]);
    }
    vp_cover(name.c_str());
#ifndef VP_RNG  // one sequence only
    for (char const *x : {"order012", "order021", "order102", "order120", "order201", "order210"})
        vp_cover(x);
#endif
    vp_cover("end");
}
// ---- perturbation --------------------------------------------------------
void perturbation(size_t nc, size_t ns, int which, size_t most, size_t extra, bool fixed = false)
{
    Inst in = instance(nc, ns, Feat::DIST);
    for (auto &c : in.cl)
        c.req = false;
    for (auto &x : in.sh)
        x.req = false;
    Plan p;
    if (which == 0)
    {
        p.routes.push_back({0, {C(0), C(1)}});
        p.routes.push_back({1, {C(2)}});
    }
    else if (which == 1)
    {
        p.routes.push_back({0, {P(0), C(0), L(0)}});
    }
    else if (which == 2)
    {
        p.routes.push_back({0, {C(0), D(1), C(1)}});
    }
    else if (which == 4)
    {
        p.routes.push_back({0, {C(1), P(0), C(0), L(0), C(2)}});
        p.routes.push_back({1, {P(1), L(1), C(3)}});
    }
    else if (which == 5)
    {
        p.routes.push_back({0, {P(0), L(0), C(0)}});
    }
    size_t const lo = vp_choose("min", most);
    size_t const fewNb = vp_choose("neighbours", 2);
    if (fixed)
        for (size_t k = 0; k != 2; ++k)
            for (size_t i = 0; i != in.nlocs; ++i)
                for (size_t j = 0; j != in.nlocs; ++j)
                    in.dist[k][i][j] = i == j ? 0 : 3 + (7 * i + 5 * j + k) % 11;
    else
        symFeat(in, Feat::DIST, 1000);
    auto const data = in.build();
    S::Solution s(data);
    s.load(make(data, p));
    auto nb = complete(in);
    if (fewNb)
        for (auto &[k, v] : nb)
            while (v.size() > 1)
                v.pop_back();
    S::SearchSpace space(data, nb);
    S::PerturbationManager pm(S::PerturbationParams(lo, lo + extra));
    RandomNumberGenerator rng(1);
    space.shuffle(rng);
    pm.shuffle(rng);
    size_t const num = pm.numPerturbations();
    vp_check(num >= lo && num <= lo + extra, "the number of perturbations is within its limits");
    if (num == lo)
        vp_cover("least");
    if (num == lo + extra)
        vp_cover("most");
    CostEvaluator const ce(loadPen(in), 3, 2);
    std::vector<bool> was;
    for (auto &c : s.clients)
        was.push_back(c.route());
    for (auto &x : s.shipments)
        was.push_back(x.first.route());
    // The visits next to each planned visit, depots aside.
    auto const around = [&]
    {
        std::vector<std::pair<S::Route::Node *, S::Route::Node *>> res;
        auto const look = [&](S::Route::Node &x)
        {
            auto const visit = [](S::Route::Node *n) { return n->isDepot() ? nullptr : n; };
            if (x.route())
                res.push_back({visit(S::p(&x)), visit(S::n(&x))});
            else
                res.push_back({&x, &x});  // not planned
        };
        for (auto &c : s.clients)
            look(c);
        for (auto &x : s.shipments)
            look(x.first), look(x.second);
        return res;
    };
    auto const before = around();
    pm.perturb(s, space, ce);
    for (auto &r : s.routes)
        r.update();
    consistent(in, s);
    auto const now = around();
    for (size_t i = 0; i != before.size(); ++i)
        if (before[i] != now[i])
            vp_check(space.isPromising(i < nc ? A(C(i)) : A(P((i - nc) / 2))), "visits that get other visits next to them are promising");
    size_t changed = 0;
    for (size_t i = 0; i != nc; ++i)
        if (was[i] != (s.clients[i].route() != nullptr))
        {
            changed++;
            vp_check(space.isPromising(A(C(i))), "changed visits are promising");
        }
    for (size_t i = 0; i != ns; ++i)
        if (was[nc + i] != (s.shipments[i].first.route() != nullptr))
        {
            changed++;
            vp_check(space.isPromising(A(P(i))), "changed visits are promising");
        }
    vp_check(changed == (num < nc + ns ? num : nc + ns), "exactly that many visits change between planned and unplanned");
    Solution const out = s.unload();
    vp_check(out.numClients() <= nc, "the perturbed solution is well formed");
    vp_cover("end");
}
}  // namespace

extern "C" void h_init_clients() { initial(3, 0, {}, {1, 1}); }
extern "C" void h_init_clients2() { initial(4, 0, {}, {3}); }
extern "C" void h_init_group() { initial(3, 0, {{0, 2}}, {2}); }
extern "C" void h_init_groups() { initial(4, 0, {{0, 2}, {1}}, {1}); }
extern "C" void h_init_ship() { initial(1, 2, {}, {1}); }
extern "C" void h_init_ship2() { initial(0, 3, {}, {1, 1}); }
extern "C" void h_init_mix() { initial(2, 1, {{0, 1}}, {1, 1}); }
extern "C" void h_init_five() { initial(5, 0, {{0, 1, 2}}, {3}); }
extern "C" void h_shuffle1() { shuffled(1); }
extern "C" void h_shuffle3() { shuffled(3); }
extern "C" void h_shuffle5() { shuffled(5); }
extern "C" void h_orders() { orders(2, 2, {1, 2, 1}); }
extern "C" void h_orders_c() { orders(5, 0, {2}); }
extern "C" void h_orders_v() { orders(1, 0, {2, 1, 3, 1}); }
extern "C" void h_perturb_clients() { perturbation(3, 0, 0, 4, 1); }
extern "C" void h_perturb_ship() { perturbation(1, 2, 1, 3, 1); }
extern "C" void h_perturb_ships() { perturbation(1, 2, 1, 4, 1, true); }
extern "C" void h_perturb_clients4() { perturbation(4, 0, 0, 5, 1, true); }
extern "C" void h_perturb_mix() { perturbation(3, 1, 0, 4, 1, true); }
extern "C" void h_perturb_trip() { perturbation(3, 0, 2, 4, 1); }
extern "C" void h_perturb_none() { perturbation(2, 1, 3, 3, 0); }
extern "C" void h_perturb_range() { perturbation(2, 0, 3, 1, 3); }
extern "C" void h_perturb_between() { perturbation(4, 2, 4, 4, 1, true); }
extern "C" void h_perturb_after() { perturbation(2, 1, 5, 3, 1); }
