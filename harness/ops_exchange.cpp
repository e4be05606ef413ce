// Exchange operators: Relocate, Swap and SwapTails.
#include "ops.h"

#include "search/Relocate.h"
#include "search/Swap.h"
#include "search/SwapTails.h"

namespace
{
// Two vehicle types with different depots, profiles and unit costs.
Inst instance(size_t nc, size_t ns, Feat f)
{
    Inst in(nc, ns, 2, {2, 1}, f == Feat::LOAD, 2);
    in.ve[1].start = 1;
    in.ve[1].prof = 1;
    in.ve[1].udist = 3;
    if (f != Feat::LOAD && f != Feat::DIST)
    {
        in.ve[0].udur = f == Feat::TIME;
        in.ve[0].uot = 2;
        in.ve[1].udur = 2;
    }
    return in;
}
using Cands = std::vector<std::vector<Acts>>;
// Whether [from, from + n) are visits of one trip, made while no shipment is on
// board, and containing whole shipments only.
bool movable(Acts const &a, size_t from, size_t n)
{
    if (from + n > a.size())
        return false;
    size_t on = 0;
    for (size_t i = 0; i != from + n; ++i)
    {
        if (i == from && on != 0)
            return false;
        on += a[i].type == AT::PICKUP;
        if (i >= from && (a[i].type == AT::DEPOT || (a[i].type == AT::DELIVERY && on == 0)))
            return false;
        on -= a[i].type == AT::DELIVERY;
    }
    return on == 0;
}
bool depotBetween(Acts const &a, size_t i, size_t j)
{
    for (size_t k = imin(i, j); k < imax(i, j); ++k)
        if (a[k].type == AT::DEPOT)
            return true;
    return false;
}
// What the move should lead to, if it is possible. Positions are those in the
// search routes, where position 0 is the start depot.
template <size_t N> Cands result(S::Relocate<N> const *, S::Solution const &s, Node *U, Node *V)
{
    if (!U->route() || !V->route() || U->isDepot())
        return {};
    auto x = listing(s);
    size_t const ru = indexOf(s, U->route()), rv = indexOf(s, V->route()), u = U->pos() - 1, v = V->pos();
    if (!movable(x[ru], u, N))
        return {};
    if (ru == rv && ((u <= v && v <= u + N) || depotBetween(x[ru], u, v)))
        return {};
    Acts const seg(x[ru].begin() + u, x[ru].begin() + u + N);
    if (ru == rv && v > u)
    {
        x[rv].insert(x[rv].begin() + v, seg.begin(), seg.end());
        x[ru].erase(x[ru].begin() + u, x[ru].begin() + u + N);
    }
    else
    {
        x[ru].erase(x[ru].begin() + u, x[ru].begin() + u + N);
        x[rv].insert(x[rv].begin() + v, seg.begin(), seg.end());
    }
    return {x};
}
template <size_t N, size_t M> Cands result(S::Swap<N, M> const *, S::Solution const &s, Node *U, Node *V)
{
    if (!U->route() || !V->route() || U->isDepot() || V->isDepot())
        return {};
    auto x = listing(s);
    size_t const ru = indexOf(s, U->route()), rv = indexOf(s, V->route()), u = U->pos() - 1, v = V->pos() - 1;
    if (!movable(x[ru], u, N) || !movable(x[rv], v, M))
        return {};
    if (ru == rv && (!(u + N < v || v + M < u) || depotBetween(x[ru], u, v)))
        return {};
    Acts const a(x[ru].begin() + u, x[ru].begin() + u + N), b(x[rv].begin() + v, x[rv].begin() + v + M);
    auto const put = [&](size_t r, size_t pos, size_t n, Acts const &seg)
    {
        x[r].erase(x[r].begin() + pos, x[r].begin() + pos + n);
        x[r].insert(x[r].begin() + pos, seg.begin(), seg.end());
    };
    if (ru == rv && v > u)
        put(rv, v, M, a), put(ru, u, N, b);
    else
        put(ru, u, N, b), put(rv, v, M, a);
    return {x};
}
Cands result(S::SwapTails const *, S::Solution const &s, Node *U, Node *V)
{
    if (!U->route() || !V->route() || U->isDepot() || U->route() == V->route())
        return {};
    auto x = listing(s);
    size_t const ru = indexOf(s, U->route()), rv = indexOf(s, V->route()), u = U->pos(), v = V->pos();
    if (depotBetween(x[ru], u, x[ru].size()) || depotBetween(x[rv], v, x[rv].size()))
        return {};
    if (!movable(x[ru], u, x[ru].size() - u) || !movable(x[rv], v, x[rv].size() - v))
        return {};
    Acts const a(x[ru].begin() + u, x[ru].end()), b(x[rv].begin() + v, x[rv].end());
    x[ru].erase(x[ru].begin() + u, x[ru].end());
    x[rv].erase(x[rv].begin() + v, x[rv].end());
    x[ru].insert(x[ru].end(), b.begin(), b.end());
    x[rv].insert(x[rv].end(), a.begin(), a.end());
    return {x};
}
// Some moves are the same the other way around: those have to be proposed in one of the
// two orders only.
template <size_t N> bool other(S::Relocate<N> &, Node *, Node *, CostEvaluator const &) { return false; }
template <size_t N, size_t M> bool other(S::Swap<N, M> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    return N == M && op.evaluate(V, U, ce).second;
}
bool other(S::SwapTails &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (V->isDepot())
        return U->route() > V->route() && !V->route()->empty();
    return op.evaluate(V, U, ce).second;
}
template <class Op>
void pairwise(Inst &in, Plan const &p, Feat f, Refs const &us, Refs const &vs, Opts o = {}, bool prepared = false)
{
    o.lower = false;
    size_t const ui = vp_choose("U", us.size());
    size_t const vi = vp_choose("V", vs.size());
    if (!prepared)
        symFeat(in, f);
    auto const data = in.build();
    S::Solution s(data);
    s.load(make(data, p));
    CostEvaluator const ce(loadPen(in), 3, 2);
    Op op(data);
    op.init(s);
    Node *U = find(s, us[ui]), *V = find(s, vs[vi]);
    if (U == V)
        return;
    if (!move(data, s, ce, op, o, U, V) && o.best && !other(op, U, V, ce))
        noBetter(data, s, ce, result(&op, s, U, V));
    vp_cover("end");
}
Refs starts() { return Refs{at(0, 0), at(1, 0), at(2, 0)}; }

// Two routes of two clients and an empty one.
template <class Op> void two(Feat f)
{
    Inst in = instance(4, 0, f);
    Plan p;
    p.routes.push_back({0, {C(1), C(0)}});
    p.routes.push_back({1, {C(2), C(3)}});
    // search routes: 0, 1 of type 0 (1 is empty), 2 of type 1
    pairwise<Op>(in, p, f, clients(4), clients(4) + starts());
}
// All in one route.
template <class Op> void one(Feat f)
{
    Inst in(4, 0, 1, {1}, f == Feat::LOAD);
    in.ve[0].udur = f == Feat::TIME;
    Plan p;
    p.routes.push_back({0, {C(1), C(0), C(2), C(3)}});
    pairwise<Op>(in, p, f, clients(4), clients(4) + Refs{at(0, 0)});
}
// Longer routes, for the operators that move up to three visits.
template <class Op> void lng(Feat f)
{
    Inst in = instance(6, 0, f);
    Plan p;
    p.routes.push_back({0, {C(0), C(1), C(2)}});
    p.routes.push_back({1, {C(5), C(4), C(3)}});
    pairwise<Op>(in, p, f, clients(2), Refs{at(C(3)), at(C(4)), at(C(5)), at(1, 0), at(2, 0)});
}
template <class Op> void lng1(Feat f)
{
    Inst in(7, 0, 1, {1}, f == Feat::LOAD);
    in.ve[0].udur = f == Feat::TIME;
    Plan p;
    p.routes.push_back({0, {C(0), C(1), C(2), C(3), C(4), C(5), C(6)}});
    pairwise<Op>(in, p, f, Refs{at(C(0)), at(C(1)), at(C(4))}, clients(7) + Refs{at(0, 0)});
}
// Shipments: pairs must stay together, pickup first.
template <class Op> void ship(Feat f)
{
    Inst in = instance(2, 2, f);
    Plan p;
    p.routes.push_back({0, {P(0), C(0), L(0)}});
    p.routes.push_back({1, {P(1), L(1), C(1)}});
    pairwise<Op>(in, p, f, clients(2) + pickups(2), clients(2) + pickups(2) + deliveries(2) + starts());
}
// Whole shipments next to clients.
template <class Op> void mix(Feat f)
{
    Inst in = instance(3, 2, f);
    Plan p;
    p.routes.push_back({0, {C(0), C(1), P(1), L(1)}});
    p.routes.push_back({1, {P(0), L(0), C(2)}});
    pairwise<Op>(in, p, f, clients(3) + pickups(2), clients(3) + pickups(2) + deliveries(2) + starts());
}
// Multiple trips.
template <class Op> void trip(Feat f)
{
    Inst in = instance(4, 0, f);
    in.ve[0].reload = {1, 0};
    Plan p;
    p.routes.push_back({0, {C(0), D(1), C(1), C(3)}});
    p.routes.push_back({1, {C(2)}});
    pairwise<Op>(in, p, f, clients(4), clients(4) + starts());
}
// Two vehicles that end at different depots, one visiting only a reload depot
// besides its single client.
template <class Op> void ends(Feat f)
{
    Inst in = instance(3, 0, f);
    in.ve[1].end = 1;
    in.ve[0].reload = {1};
    Plan p;
    p.routes.push_back({0, {D(1), C(0)}});
    p.routes.push_back({1, {C(2), C(1)}});
    pairwise<Op>(in, p, f, clients(3), clients(3) + starts());
}
// One client per vehicle.
template <class Op> void tiny(Feat f)
{
    Inst in = instance(2, 0, f);
    in.ve[1].end = 1;
    Plan p;
    p.routes.push_back({0, {C(1)}});
    p.routes.push_back({1, {C(0)}});
    pairwise<Op>(in, p, f, clients(2), clients(2) + starts());
}
// Which cost terms apply at all: unit costs and limits that may be absent.
template <class Op> void flags()
{
    Inst in(2, 0, 1, {2}, 0);
    size_t const mode = vp_choose("mode", 8);
    in.ve[0].udist = mode & 1;
    in.symDist(1'000'000'000);
    in.symDur(1'000'000'000);
    if (mode & 2)
        in.symMaxDist(1'000'000'000);
    if (mode & 4)
        in.ve[0].uot = 3, in.ve[0].shift = sym("shift", 0, 1'000'000'000);
    if (mode == 7)
        in.ve[0].maxOvertime = 0;
    else if (mode == 6)
        in.ve[0].maxOvertime = sym("overtime", 0, 1'000'000'000);
    else if (mode == 5)
        in.ve[0].uot = 0, in.ve[0].maxOvertime = 0;
    Plan p;
    p.routes.push_back({0, {C(1)}});
    p.routes.push_back({0, {C(0)}});
    pairwise<Op>(in, p, Feat::DIST, clients(2), clients(2) + Refs{at(0, 0)}, {}, true);
}
// The same for two vehicle types that differ in what they charge for.
template <class Op> void flags2()
{
    Inst in(3, 0, 1, {1, 1}, 0);
    size_t const mode = vp_choose("mode", 16);
    for (size_t t : {0, 1})
    {
        in.ve[t].udist = mode >> (2 * t) & 1;
        in.ve[t].udur = mode >> (2 * t + 1) & 1;
    }
    in.symDist(1'000'000'000);
    in.symDur(1'000'000'000);
    Plan p;
    p.routes.push_back({0, {C(1), C(2)}});
    p.routes.push_back({1, {C(0)}});
    pairwise<Op>(in, p, Feat::DIST, clients(3), clients(3) + Refs{at(0, 0), at(1, 0)}, {}, true);
}
// A single source of time constraints at a time: nothing else makes durations matter.
template <class Op> void sole()
{
    Inst in(2, 1, 1, {2}, 0);
    in.symDur(1'000'000'000);
    auto const t = [](char const *n) { return sym(n, 0, 1'000'000'000); };
    switch (vp_choose("source", 7))
    {
    case 0:
        in.cl[1].l = t("client late");
        break;
    case 1:
        in.cl[0].e = t("client early"), in.ve[0].shift = t("shift");
        break;
    case 2:
        in.de[0].l = t("depot late");
        break;
    case 3:
        in.ve[0].l = t("vehicle late");
        break;
    case 4:
        in.ve[0].startLate = t("start late"), in.cl[1].rel = t("release");
        break;
    case 5:
        in.sh[0].pl = t("pickup late");
        break;
    case 6:
        in.sh[0].dl = t("delivery late");
        break;
    }
    Plan p;
    p.routes.push_back({0, {C(1)}});
    p.routes.push_back({0, {P(0), L(0), C(0)}});
    pairwise<Op>(in, p, Feat::DIST, clients(2) + pickups(1), clients(2) + pickups(1) + Refs{at(0, 0), at(1, 0)}, {}, true);
}
// Release times of several trips.
template <class Op> void rel()
{
    Inst in(3, 0, 2, {2}, 0);
    in.ve[0].reload = {1};
    Plan p;
    p.routes.push_back({0, {C(1), D(1), C(0)}});
    p.routes.push_back({0, {C(2)}});
    pairwise<Op>(in, p, Feat::REL, clients(3), clients(3) + Refs{at(0, 0), at(1, 0)});
}
template <class Op> void cache(size_t ns)
{
    Inst in = instance(3, ns, Feat::DIST);
    Plan p;
    Acts a = {C(0), C(1)};
    if (ns)
        a = {C(0), P(0), L(0), C(1)};
    p.routes.push_back({0, a});
    p.routes.push_back({1, {C(2)}});
    cached<Op>(in, p, Feat::DIST, Refs{at(C(0)), at(C(1))} + pickups(ns), Refs{at(C(0)), at(C(2)), at(1, 0)});
}
}  // namespace
#define PLAN(NAME, PLAN, OP)                                                                                           \
    extern "C" void h_##NAME##_##PLAN##_load() { PLAN<OP>(Feat::LOAD); }                                               \
    extern "C" void h_##NAME##_##PLAN##_time() { PLAN<OP>(Feat::TIME); }                                               \
    extern "C" void h_##NAME##_##PLAN##_win() { PLAN<OP>(Feat::WIN); }                                                 \
    extern "C" void h_##NAME##_##PLAN##_rel() { PLAN<OP>(Feat::REL); }                                                 \
    extern "C" void h_##NAME##_##PLAN##_depot() { PLAN<OP>(Feat::DEPOT); }
#define OP(NAME, OP)                                                                                                   \
    PLAN(NAME, two, OP)                                                                                                \
    PLAN(NAME, one, OP)                                                                                                \
    PLAN(NAME, lng, OP)                                                                                                \
    PLAN(NAME, lng1, OP)                                                                                               \
    PLAN(NAME, ship, OP)                                                                                               \
    PLAN(NAME, mix, OP)                                                                                                \
    PLAN(NAME, trip, OP)                                                                                               \
    PLAN(NAME, tiny, OP)                                                                                               \
    PLAN(NAME, ends, OP)                                                                                               \
    extern "C" void h_##NAME##_flags() { flags<OP>(); }                                                                \
    extern "C" void h_##NAME##_flags2() { flags2<OP>(); }                                                              \
    extern "C" void h_##NAME##_sole() { sole<OP>(); }                                                                  \
    extern "C" void h_##NAME##_reltrip() { rel<OP>(); }                                                               \
    extern "C" void h_##NAME##_cache() { cache<OP>(0); }                                                               \
    extern "C" void h_##NAME##_cacheship() { cache<OP>(1); }
using S1 = S::Relocate<1>;
using S2 = S::Relocate<2>;
using S3 = S::Relocate<3>;
using X11 = S::Swap<1, 1>;
using X21 = S::Swap<2, 1>;
using X22 = S::Swap<2, 2>;
using X31 = S::Swap<3, 1>;
using X32 = S::Swap<3, 2>;
using X33 = S::Swap<3, 3>;
OP(relocate1, S1)
OP(relocate2, S2)
OP(relocate3, S3)
OP(swap11, X11)
OP(swap21, X21)
OP(swap22, X22)
OP(swap31, X31)
OP(swap32, X32)
OP(swap33, X33)
OP(swaptails, S::SwapTails)
