// Shared driver for the local search operators: loads a plan, evaluates one
// move, applies it if it should be, and compares the cost of the resulting
// solution, computed from scratch, with what the operator promised.
#pragma once
#include "inst.h"

#include "search/LocalSearchOperator.h"
#include "search/Solution.h"

namespace S = pyvrp::search;
using Node = S::Route::Node;

struct Plan
{
    std::vector<std::pair<size_t, Acts>> routes;  // vehicle type, visits
};

inline Solution make(ProblemData const &data, Plan const &p)
{
    std::vector<Route> rs;
    for (auto const &[vt, acts] : p.routes)
        rs.emplace_back(data, conv(acts), vt);
    return Solution(data, rs);
}

// Reference to a node in the search solution: a client or shipment activity,
// or position pos of the search route with the given index.
struct Ref
{
    bool isAct;
    Act act;
    size_t route = 0, pos = 0;
};
inline Ref at(Act a) { return {true, a}; }
inline Ref at(size_t route, size_t pos) { return {false, D(0), route, pos}; }
inline Node *find(S::Solution &s, Ref const &r)
{
    if (r.isAct)
        return s[Activity(r.act.type, r.act.idx)];
    return s.routes[r.route][r.pos];
}
using Refs = std::vector<Ref>;

inline Refs clients(size_t n)
{
    Refs r;
    for (size_t i = 0; i != n; ++i)
        r.push_back(at(C(i)));
    return r;
}
inline Refs pickups(size_t n)
{
    Refs r;
    for (size_t i = 0; i != n; ++i)
        r.push_back(at(P(i)));
    return r;
}
inline Refs deliveries(size_t n)
{
    Refs r;
    for (size_t i = 0; i != n; ++i)
        r.push_back(at(L(i)));
    return r;
}
inline Refs operator+(Refs a, Refs const &b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

enum class Feat
{
    DIST,  // distances and fixed costs
    LOAD,  // distances, loads, distance limits, fixed costs, prizes
    TIME,  // distances, durations, services, shifts
    WIN,   // durations, client and shipment windows
    DEPOT, // durations, depot and vehicle windows
    REL    // durations, client windows and release times
};

struct Opts
{
    bool keepsUnplanned = true;  // the move never changes what is planned
    bool strict = true;          // only moves that strictly improve are applied
    bool lower = true;           // a positive delta means the move was fully defined
    bool best = true;            // also compare with every candidate
};

inline void symFeat(Inst &in, Feat f, int64_t B = 1'000'000'000)
{
    if (f == Feat::DIST)
    {
        in.symDist(B);
        in.symFixed(B);
    }
    else if (f == Feat::LOAD)
    {
        in.symDist(B);
        in.symFixed(B);
        in.symLoads(B);
        in.symMaxDist(B);
        in.symPrizes(B);
    }
    else if (f == Feat::TIME)
    {
        in.symDist(B);
        in.symFixed(B);
        in.symDur(B);
        in.symClientSvc(B);
        in.symShipSvc(B);
        in.symDepotSvc(B);
        in.symShift(B);
        in.symPrizes(B);
    }
    else if (f == Feat::WIN)
    {
        in.symDur(B);
        in.symClientTw(B);
        in.symShipTw(B);
    }
    else if (f == Feat::REL)
    {
        in.symDur(B);
        in.symClientTw(B);
        in.symRelease(B);
    }
    else
    {
        in.symDur(B);
        in.symDepotTw(B);
        in.symVehTw(B);
    }
}

// What the local search does after a move: updates the routes involved, clears
// those that became empty, and tells the operator.
template <class Op> void refresh(Op &op, S::Route *a, S::Route *b)
{
    auto const one = [&](S::Route *r)
    {
        if (!r)
            return;
        r->update();
        if (r->empty())
            r->clear();
        op.update(r);
    };
    one(a);
    if (a != b)
        one(b);
}
template <class Op> void applyMove(Op &op, Node *U)
{
    auto *r = U->route();
    op.apply(U);
    if (!r)
        r = U->route();
    refresh(op, r, r);
}
template <class Op> void applyMove(Op &op, Node *U, Node *V)
{
    auto *ru = U->route(), *rv = V->route();
    op.apply(U, V);
    refresh(op, ru, rv);
}

inline bool sameUnplanned(Solution const &a, Solution const &b)
{
    if (a.unplanned().size() != b.unplanned().size())
        return false;
    for (size_t i = 0; i != a.unplanned().size(); ++i)
        if (!(a.unplanned()[i] == b.unplanned()[i]))
            return false;
    return true;
}

// One move on a loaded solution.
template <class Op, class... Ns>
bool move(ProblemData const &data, S::Solution &s, CostEvaluator const &ce, Op &op, Opts o, Ns... nodes)
{
    Solution const before = s.unload();
    int64_t const cb = ce.penalisedCost(before).get();
    auto const [delta, ok] = op.evaluate(nodes..., ce);
    if (ok)
    {
        vp_check(o.strict ? delta.get() < 0 : delta.get() <= 0, "applied moves improve the cost");
        vp_check(Op::supports(data), "operators that find moves are used for the instance");
        applyMove(op, nodes...);
        Solution const after = s.unload();
        int64_t const ca = ce.penalisedCost(after).get();
        vp_check(ca - cb == delta.get(), "the cost changes by exactly the evaluated delta");
        vp_check(ce.penalisedCost(s).get() == ca, "the search solution has the cost of the solution it stands for");
        vp_check(after.numMissingClients() <= before.numMissingClients()
                     && after.numMissingShipments() <= before.numMissingShipments()
                     && after.numMissingGroups() <= before.numMissingGroups(),
                 "nothing required goes missing");
        if (o.keepsUnplanned)
            vp_check(sameUnplanned(before, after), "the move only reorders visits");
        vp_cover("applied");
        return true;
    }
    if (delta.get() > 0 && o.lower)
    {
        applyMove(op, nodes...);
        Solution const after = s.unload();
        vp_check(ce.penalisedCost(after).get() - cb >= 0, "moves turned down would not have improved");
        vp_cover("declined");
    }
    return false;
}

// The plan a search solution stands for, as plain data.
inline std::vector<Acts> listing(S::Solution const &s)
{
    std::vector<Acts> r;
    for (auto const &route : s.routes)
    {
        r.emplace_back();
        for (size_t i = 1; i + 1 < route.size(); ++i)
            r.back().push_back({route[i]->activity().type(), route[i]->activity().idx()});
    }
    return r;
}
inline int64_t costOf(ProblemData const &data, S::Solution const &s, CostEvaluator const &ce, std::vector<Acts> const &lists)
{
    std::vector<Route> rs;
    for (size_t r = 0; r != lists.size(); ++r)
    {
        bool empty = true;
        for (auto const &a : lists[r])
            empty = empty && a.type == AT::DEPOT;
        if (!empty)
            rs.emplace_back(data, conv(lists[r]), s.routes[r].vehicleType());
    }
    return ce.penalisedCost(Solution(data, rs)).get();
}
// Every listed alternative must be no improvement.
inline void noBetter(ProblemData const &data,
                     S::Solution const &s,
                     CostEvaluator const &ce,
                     std::vector<std::vector<Acts>> const &alternatives)
{
    int64_t const now = costOf(data, s, ce, listing(s));
    for (auto const &alt : alternatives)
    {
        vp_check(costOf(data, s, ce, alt) >= now, "no improving candidate is overlooked");
        vp_cover("declined");
    }
}
inline size_t indexOf(S::Solution const &s, S::Route const *r) { return r - s.routes.data(); }

inline std::vector<double> loadPen(Inst const &in) { return std::vector<double>(in.dims, 4.0); }

template <class Op>
void binary(Inst &in, Plan const &p, Feat f, Refs const &us, Refs const &vs, Opts o = {}, bool prepared = false)
{
    size_t const ui = vp_choose("U", us.size());
    size_t const vi = vp_choose("V", vs.size());
    if (!prepared)
        symFeat(in, f);
    auto const data = in.build();
    S::Solution s(data);
    s.load(make(data, p));
    CostEvaluator const ce(loadPen(in), 3, 2);
    Op op(data);
    op.init(s);
    Node *U = find(s, us[ui]), *V = find(s, vs[vi]);
    if (U == V)
        return;
    move(data, s, ce, op, o, U, V);
    vp_cover("end");
}

template <class Op> void unary(Inst &in, Plan const &p, Feat f, Refs const &us, Opts o = {})
{
    size_t const ui = vp_choose("U", us.size());
    symFeat(in, f);
    auto const data = in.build();
    S::Solution s(data);
    s.load(make(data, p));
    CostEvaluator const ce(loadPen(in), 3, 2);
    Op op(data);
    op.init(s);
    move(data, s, ce, op, o, find(s, us[ui]));
    vp_cover("end");
}

// Caching: evaluates a move, applies another one, and evaluates the first
// again, which must then be exact for the changed solution.
template <class Op> void cached(Inst &in, Plan const &p, Feat f, Refs const &us, Refs const &vs, Opts o = {})
{
    o.lower = false;
    size_t const u1 = vp_choose("U1", us.size()), v1 = vp_choose("V1", vs.size());
    size_t const u2 = vp_choose("U2", us.size()), v2 = vp_choose("V2", vs.size());
    symFeat(in, f);
    auto const data = in.build();
    S::Solution s(data);
    s.load(make(data, p));
    CostEvaluator const ce(loadPen(in), 3, 2);
    Op op(data);
    op.init(s);
    if (find(s, us[u1]) == find(s, vs[v1]) || find(s, us[u2]) == find(s, vs[v2]))
        return;
    op.evaluate(find(s, us[u2]), find(s, vs[v2]), ce);
    if (!move(data, s, ce, op, o, find(s, us[u1]), find(s, vs[v1])))
        return;
    vp_cover("first");
    if (move(data, s, ce, op, o, find(s, us[u2]), find(s, vs[v2])))
        vp_cover("second");
    vp_cover("end");
}

// As unary and binary above, for operators that choose among candidates: cands
// lists those that the operator has to consider.
template <class Op, class F>
void unaryBest(Inst &in, Plan const &p, Feat f, Refs const &us, Opts o, F cands)
{
    o.lower = false;
    size_t const ui = vp_choose("U", us.size());
    symFeat(in, f);
    auto const data = in.build();
    S::Solution s(data);
    s.load(make(data, p));
    CostEvaluator const ce(loadPen(in), 3, 2);
    Op op(data);
    op.init(s);
    Node *U = find(s, us[ui]);
    if (!move(data, s, ce, op, o, U) && o.best)
        noBetter(data, s, ce, cands(data, s, U));
    vp_cover("end");
}
template <class Op, class F>
void binaryBest(Inst &in, Plan const &p, Feat f, Refs const &us, Refs const &vs, Opts o, F cands)
{
    o.lower = false;
    size_t const ui = vp_choose("U", us.size());
    size_t const vi = vp_choose("V", vs.size());
    symFeat(in, f);
    auto const data = in.build();
    S::Solution s(data);
    s.load(make(data, p));
    CostEvaluator const ce(loadPen(in), 3, 2);
    Op op(data);
    op.init(s);
    Node *U = find(s, us[ui]), *V = find(s, vs[vi]);
    if (U == V)
        return;
    if (!move(data, s, ce, op, o, U, V) && o.best)
        noBetter(data, s, ce, cands(data, s, U, V));
    vp_cover("end");
}
