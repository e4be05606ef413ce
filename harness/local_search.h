#ifndef LOCAL_SEARCH_HARNESS_H
#define LOCAL_SEARCH_HARNESS_H
// The local search as a whole: it terminates, returns a valid solution with
// everything required in it, never makes a complete solution worse, and its
// figures are right.
#include "ops.h"

#include "search/InsertOptionalClient.h"
#include "search/InsertOptionalShipment.h"
#include "search/LocalSearch.h"
#include "search/PerturbationManager.h"
#include "search/Relocate.h"
#include "search/RelocateAlternative.h"
#include "search/RelocateDelivery.h"
#include "search/RelocatePickup.h"
#include "search/RelocateShipment.h"
#include "search/RelocateWithDepot.h"
#include "search/RemoveAdjacentDepot.h"
#include "search/RemoveOptionalClient.h"
#include "search/RemoveOptionalShipment.h"
#include "search/ReplaceGroup.h"
#include "search/ReplaceOptionalClient.h"
#include "search/ReplaceOptionalShipment.h"
#include "search/Swap.h"
#include "search/SwapTails.h"

#include <map>
#include <memory>
#include <set>

namespace
{
using Neighbours = S::SearchSpace::Neighbours;
Activity A(Act a) { return Activity(a.type, a.idx); }
Neighbours complete(Inst const &in)
{
    Neighbours nb;
    Acts all;
    for (size_t i = 0; i != in.cl.size(); ++i)
        all.push_back(C(i));
    for (size_t i = 0; i != in.sh.size(); ++i)
    {
        all.push_back(P(i));
        all.push_back(L(i));
    }
    for (auto const &u : all)
    {
        if (u.type == AT::DELIVERY)
            continue;
        std::vector<Activity> v;
        for (auto const &w : all)
        {
            bool const same = w.idx == u.idx && (w.type == u.type || (u.type == AT::PICKUP && w.type == AT::DELIVERY));
            if (!same)
                v.push_back(A(w));
        }
        nb[A(u)] = v;
    }
    return nb;
}

struct Ops
{
    std::vector<std::unique_ptr<S::UnaryOperator>> u;
    std::vector<std::unique_ptr<S::BinaryOperator>> b;
    ProblemData const &data;
    Ops(ProblemData const &data) : data(data) {}
    template <class T> void add()
    {
        if constexpr (std::is_base_of_v<S::UnaryOperator, T>)
            u.push_back(std::make_unique<T>(data));
        else
            b.push_back(std::make_unique<T>(data));
    }
    void into(S::LocalSearch &ls)
    {
        for (auto &x : u)
            ls.addOperator(*x);
        for (auto &x : b)
            ls.addOperator(*x);
    }
};

void after(Inst const &in, ProblemData const &data, CostEvaluator const &ce, Solution const &before, Solution const &out, bool exhaustive)
{
    vp_check(out.numMissingClients() == 0 && out.numMissingShipments() == 0 && out.numMissingGroups() == 0,
             "everything required is served");
    vp_check(out.isComplete(), "the result is complete");
    // Rebuilding from its visits must be possible and give the same.
    std::vector<Route> rs;
    for (auto const &r : out.routes())
    {
        std::vector<Activity> acts;
        for (size_t i = 1; i + 1 < r.size(); ++i)
            acts.emplace_back(r[i].type(), r[i].idx());
        rs.emplace_back(data, acts, r.vehicleType());
    }
    Solution const again(data, rs);
    vp_check(again == out && ce.penalisedCost(again).get() == ce.penalisedCost(out).get(), "the result is well formed");
    if (exhaustive && before.isComplete())
        vp_check(ce.penalisedCost(out).get() <= ce.penalisedCost(before).get(), "a complete solution does not get worse");
    vp_cover("end");
}

// No operator has an improving move left.
void noneLeft(Inst const &in, ProblemData const &data, CostEvaluator const &ce, Solution const &sol, Ops &o)
{
    S::Solution s(data);
    s.load(sol);
    for (auto &x : o.u)
        x->init(s);
    for (auto &x : o.b)
        x->init(s);
    std::vector<Node *> us, vs;
    for (auto &c : s.clients)
        us.push_back(&c), vs.push_back(&c);
    for (auto &[p, d] : s.shipments)
        us.push_back(&p), vs.push_back(&p), vs.push_back(&d);
    for (size_t i = 0; i != s.routes.size(); ++i)
        if (!s.routes[i].empty() || i == 0 || !s.routes[i - 1].empty()
            || s.routes[i - 1].vehicleType() != s.routes[i].vehicleType())
            vs.push_back(s.routes[i][0]);
    for (auto *u : us)
    {
        for (auto &x : o.u)
            vp_check(!x->evaluate(u, ce).second, "the search stops only when no operator improves");
        for (auto *v : vs)
        {
            if (!v->route() || u == v || (u->isPickup() && v->isDelivery() && v->idx() == u->idx()))
                continue;
            if (v->isStartDepot() && n(v) == u)
                continue;
            for (auto &x : o.b)
                vp_check(!x->evaluate(u, v, ce).second, "the search stops only when no operator improves");
        }
    }
}

struct Setup
{
    bool exhaustive = true;
    size_t perturbations = 0, seed = 0;
    bool twice = false;
};

template <class F> void run(Inst &in, std::vector<Plan> const &plans, F ops, Setup su = {})
{
    auto const data = in.build();
    Plan const &p = plans[vp_choose("plan", plans.size())];
    Solution const before = make(data, p);
    CostEvaluator const ce(loadPen(in), 3, 2);
    Ops o(data);
    ops(o);
    S::PerturbationManager pm(S::PerturbationParams(su.perturbations, su.perturbations));
    S::LocalSearch ls(data, complete(in), pm);
    o.into(ls);
    if (su.seed)
    {
        RandomNumberGenerator rng(su.seed);
        ls.shuffle(rng);
    }
    Solution const out = ls(before, ce, su.exhaustive);
    after(in, data, ce, before, out, su.exhaustive);
    auto const st = ls.statistics();
    vp_check(st.numImproving <= st.numUpdates && st.numImproving <= st.numMoves, "search statistics are consistent");
    if (su.exhaustive && before.isComplete())
    {
        bool const better = ce.penalisedCost(out).get() < ce.penalisedCost(before).get();
        vp_check(!better || st.numImproving > 0, "improvements are counted");
    }
    if (su.exhaustive && st.numUpdates == 0)
    {
        Ops o2(data);
        ops(o2);
        noneLeft(in, data, ce, out, o2);
        vp_cover("optimal");
    }
    if (su.twice)
    {
        Solution const out2 = ls(out, ce, true);
        after(in, data, ce, out, out2, true);
    }
}

std::vector<Plan> const two = {{{{0, {C(0), C(1)}}}}, {{{0, {C(1)}}, {0, {C(0)}}}}, {}, {{{0, {C(1)}}}}};
std::vector<Plan> const full2 = {{{{0, {C(0), C(1)}}}}, {{{0, {C(1)}}, {0, {C(0)}}}}};

Inst base(size_t nc, size_t ns, size_t nd, std::vector<int64_t> nv, bool dims = false) { return Inst(nc, ns, nd, nv, dims); }

void relocate()
{
    Inst in = base(2, 0, 1, {2});
    in.symDist(1'000'000);
    run(in, two, [](Ops &o) { o.add<S::Relocate<1>>(); });
}
void swaps()
{
    Inst in = base(2, 0, 1, {2});
    in.symDist(1'000'000);
    run(in, full2, [](Ops &o) { o.add<S::Swap<1, 1>>(), o.add<S::SwapTails>(); });
}
void fixedcost()
{
    Inst in = base(2, 0, 1, {1, 1});
    in.symDist(1'000'000);
    in.symFixed(1'000'000);
    std::vector<Plan> const ps = {{{{0, {C(0), C(1)}}}}, {{{1, {C(1)}}, {0, {C(0)}}}}};
    run(in, ps, [](Ops &o) { o.add<S::Relocate<1>>(), o.add<S::SwapTails>(); });
}
void optional(bool exhaustive, size_t perturb, size_t seed)
{
    Inst in = base(2, 0, 1, {1});
    in.cl[0].req = vp_bool("required");
    in.cl[1].req = false;
    in.symDist(1'000'000);
    in.symPrizes(1'000'000);
    std::vector<Plan> const ps = {{{{0, {C(0), C(1)}}}}, {{{0, {C(0)}}}}, {}};
    run(in, ps,
        [](Ops &o)
        {
            o.add<S::InsertOptionalClient>();
            o.add<S::RemoveOptionalClient>();
            o.add<S::ReplaceOptionalClient>();
            o.add<S::Relocate<1>>();
        },
        {exhaustive, perturb, seed});
}
void groups(bool exhaustive, size_t perturb, size_t seed)
{
    Inst in = base(3, 0, 1, {1});
    in.gr.push_back({{0, 1}, vp_bool("group_required")});
    in.cl[0].req = in.cl[1].req = false;
    in.cl[0].grp = in.cl[1].grp = 0;
    in.symDist(1'000'000);
    in.symPrizes(1'000'000);
    std::vector<Plan> const ps = {{{{0, {C(0), C(2)}}}}, {{{0, {C(2)}}}}, {}};
    run(in, ps,
        [](Ops &o)
        {
            o.add<S::ReplaceGroup>();
            o.add<S::RemoveOptionalClient>();
        },
        {exhaustive, perturb, seed});
}
void shipments(bool exhaustive, size_t perturb, size_t seed, int which)
{
    Inst in = base(1, 1 + (which == 1), 1, {1});
    in.sh[0].req = vp_bool("required");
    if (which == 1)
        in.sh[1].req = false;
    in.symDist(1'000'000);
    in.symPrizes(1'000'000);
    std::vector<Plan> const ps = {{{{0, {P(0), C(0), L(0)}}}}, {{{0, {C(0)}}}}, {}};
    run(in, ps,
        [which](Ops &o)
        {
            if (which == 0)
            {
                o.add<S::RelocateShipment>();
                o.add<S::RelocatePickup>();
                o.add<S::RelocateDelivery>();
            }
            else
            {
                o.add<S::InsertOptionalShipment>();
                o.add<S::RemoveOptionalShipment>();
                o.add<S::ReplaceOptionalShipment>();
            }
        },
        {exhaustive, perturb, seed});
}
void depots(bool exhaustive, size_t perturb, size_t seed)
{
    Inst in = base(2, 0, 1, {1}, true);
    in.ve[0].reload = {0};
    in.symDist(1'000'000);
    in.symLoads(1'000'000, false);
    for (auto &c : in.cl)
        c.pick[0] = 0;
    std::vector<Plan> const ps = {{{{0, {C(0), C(1)}}}}, {{{0, {C(0), D(0), C(1)}}}}, {{{0, {D(0), C(1)}}}}};
    run(in, ps,
        [](Ops &o)
        {
            o.add<S::RelocateWithDepot>();
            o.add<S::RemoveAdjacentDepot>();
        },
        {exhaustive, perturb, seed});
}
void again()
{
    Inst in = base(2, 0, 1, {2});
    in.symDist(1'000'000);
    run(in, full2, [](Ops &o) { o.add<S::Relocate<1>>(); }, {true, 0, 0, true});
}
// No operators at all: only what is required is added.
void repair(size_t seed)
{
    Inst in = base(3, 1, 1, {1, 1});
    in.gr.push_back({{0, 1}, vp_bool("group_required")});
    in.cl[0].req = in.cl[1].req = false;
    in.cl[0].grp = in.cl[1].grp = 0;
    in.cl[2].req = vp_bool("client_required");
    in.sh[0].req = vp_bool("shipment_required");
    in.symDist(1'000'000);
    std::vector<Plan> const ps = {{}, {{{0, {C(0)}}}}, {{{1, {C(2)}}}}, {{{0, {C(2)}}, {1, {P(0), L(0)}}}}};
    run(in, ps, [](Ops &) {}, {true, 0, seed});
}
void repairperturb(size_t perturb, size_t seed)
{
    Inst in = base(3, 1, 1, {1});
    in.gr.push_back({{0, 1}, vp_bool("group_required")});
    in.cl[0].req = in.cl[1].req = false;
    in.cl[0].grp = in.cl[1].grp = 0;
    in.cl[2].req = vp_bool("client_required");
    in.sh[0].req = vp_bool("shipment_required");
    in.symDist(1'000'000);
    std::vector<Plan> const ps = {{}, {{{0, {C(0), C(2)}}}}, {{{0, {P(0), L(0)}}}}};
    run(in, ps, [](Ops &) {}, {false, perturb, seed});
}
std::vector<Plan> const full3 = {{{{0, {C(2), C(0), C(1)}}}}, {{{0, {C(1)}}, {0, {C(2), C(0)}}}}};
template <class... Os> void mix(size_t nc, Feat f, std::vector<int64_t> nv, size_t seed, bool reload = false)
{
    Inst in(nc, 0, 1, nv, f == Feat::LOAD);
    in.ve[0].udur = f == Feat::TIME;
    if (reload)
        in.ve[0].reload = {0};
    if (f == Feat::LOAD)
    {
        in.symDist(1'000'000);
        in.symLoads(1'000'000, false);
    }
    else if (f == Feat::DIST)
        in.symDist(1'000'000);
    else if (f == Feat::WIN)
    {
        in.symDur(1'000'000);
        in.symClientTw(1'000'000);
    }
    else
    {
        in.symDur(1'000'000);
        in.symShift(1'000'000);
    }
    run(in, nc == 2 ? full2 : full3, [](Ops &o) { (o.add<Os>(), ...); }, {true, 0, seed});
}

// The search loop by itself, with operators that find up to `budget` moves
// improving at whatever evaluations the solver picks. When the search stops, every pair of
// visit and neighbour must have been evaluated in the present state of both routes.
struct Book
{
    S::Solution *sol = nullptr;
    std::map<S::Route const *, int> version;
    std::map<std::pair<Node const *, Node const *>, std::pair<int, int>> pairs;
    std::map<Node const *, int> single;
    std::set<S::Route const *> pending;
    size_t budget = 0;
    void change(S::Route const *r) { version[r]++, pending.insert(r); }
    void synced() { vp_check(pending.empty(), "operators are told about every changed route"); }
    bool choose(char const *name) { return budget && vp_choose(name, 2) && budget--; }
};
struct Binary : S::BinaryOperator
{
    Book &b;
    Binary(ProblemData const &data, Book &b) : S::BinaryOperator(data), b(b) {}
    std::pair<Cost, bool> evaluate(Node *U, Node *V, CostEvaluator const &) override
    {
        stats_.numEvaluations++;
        b.synced();
        auto const *ru = U->route();
        b.pairs[{U, V}] = {ru ? b.version[ru] : -1, b.version[V->route()]};
        if (!ru || !U->isClient() || (!V->isStartDepot() && !V->isClient()) || !b.choose("improves"))
            return {0, false};
        return {-1, true};
    }
    void apply(Node *U, Node *V) const override
    {
        stats_.numApplications++;
        b.change(U->route());
        b.change(V->route());
        if (V->isClient())
            S::Route::swap(U, V);
        else
        {
            U->route()->remove(U->pos());
            V->route()->insert(1, U);
        }
    }
    void init(S::Solution &s) override
    {
        S::BinaryOperator::init(s);
        b.sol = &s;
        b.pairs.clear();
        b.single.clear();
        b.pending.clear();
    }
    std::string name() const override { return "b"; }
    void update(S::Route const *r) override { b.pending.erase(r); }
};
struct Unary : S::UnaryOperator
{
    Book &b;
    Unary(ProblemData const &data, Book &b) : S::UnaryOperator(data), b(b) {}
    std::pair<Cost, bool> evaluate(Node *U, CostEvaluator const &) override
    {
        stats_.numEvaluations++;
        b.synced();
        b.single[U] = U->route() ? b.version[U->route()] : -1;
        if (!U->route() || !U->isClient() || U->route()->numClients() != 2 || !b.choose("improves alone"))
            return {0, false};
        return {-1, true};
    }
    void apply(Node *U) const override  // reverse a route of two
    {
        stats_.numApplications++;
        auto *r = U->route();
        b.change(r);
        S::Route::swap((*r)[1], (*r)[2]);
    }
    std::string name() const override { return "u"; }
};
void book(Plan p, size_t nc, size_t ns, std::vector<int64_t> veh, size_t budget, size_t seed, bool unary, int sparse = 0, bool twice = false)
{
    Inst in(nc, ns, 1, veh, 0);
    ProblemData const data = in.build();
    CostEvaluator const ce({}, 1, 1);
    auto nb = complete(in);
    if (sparse)
        for (auto &[u, vs] : nb)
        {
            std::vector<Activity> keep;
            for (size_t i = 0; i != vs.size(); ++i)
                if ((i + u.idx()) % 2 == size_t(sparse - 1))
                    keep.push_back(vs[i]);
            vs = keep;
        }
    S::PerturbationParams const pp(0, 0);
    S::PerturbationManager pm(pp);
    S::LocalSearch ls(data, nb, pm);
    Book b;
    Binary bo(data, b);
    Unary uo(data, b);
    ls.addOperator(bo);
    if (unary)
        ls.addOperator(uo);
    if (seed)
    {
        RandomNumberGenerator rng(seed);
        ls.shuffle(rng);
    }
    Solution const start = make(data, p);
    for (int run = 0; run != 1 + twice; ++run)
    {
        b.budget = run + 1 < 1 + twice ? 1 : budget;
        auto const out = ls(start, ce, true);
        b.synced();
        vp_check(out.isComplete(), "the result is complete");
        auto ver = [&](Node const *x) { return x->route() ? b.version[x->route()] : -1; };
        auto fresh = [&](Node const *u, Node const *v)
        {
            auto it = b.pairs.find({u, v});
            vp_check(it != b.pairs.end() && it->second == std::pair<int, int>(ver(u), ver(v)),
                     "every pair is evaluated in its final state");
        };
        auto &s = *b.sol;
        for (auto const &[ua, vs] : nb)
        {
            Node *u = s[ua];
            if (unary)
            {
                auto it = b.single.find(u);
                vp_check(it != b.single.end() && it->second == ver(u), "every visit is evaluated in its final state");
            }
            for (auto const &va : vs)
            {
                Node *v = s[va];
                if (!v->route())
                    continue;
                fresh(u, v);
                if (v->pos() == 1)
                    fresh(u, (*v->route())[0]);
            }
            size_t first = 0;
            for (size_t t = 0; t != veh.size(); ++t)
            {
                for (size_t i = first; i != first + veh[t]; ++i)
                    if (s.routes[i].empty())
                    {
                        fresh(u, s.routes[i][0]);
                        break;
                    }
                first += veh[t];
            }
        }
        auto const st = ls.statistics();
        vp_check(st.numMoves == bo.statistics().numEvaluations + (unary ? uo.statistics().numEvaluations : 0)
                     && st.numImproving == bo.statistics().numApplications + (unary ? uo.statistics().numApplications : 0)
                     && st.numUpdates == st.numImproving,
                 "statistics count what happened");
    }
    vp_cover("end");
}
Plan planOf(std::vector<std::pair<size_t, Acts>> r)
{
    Plan p;
    p.routes = r;
    return p;
}
}  // namespace
#endif
