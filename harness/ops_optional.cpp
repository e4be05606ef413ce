// Operators for optional clients and client groups.
#include "ops.h"

#include "search/InsertOptionalClient.h"
#include "search/RelocateAlternative.h"
#include "search/RemoveOptionalClient.h"
#include "search/ReplaceGroup.h"
#include "search/ReplaceOptionalClient.h"

namespace
{
constexpr Opts CHANGES{false, true, true};

// Clients 0-2 planned in two routes, 3 and 4 not; 1 and 3 form a group.
Inst instance(Feat f, bool group, size_t nc = 5)
{
    Inst in(nc, 0, 2, {2, 1}, f == Feat::LOAD, 2);
    in.ve[1].start = 1;
    in.ve[1].prof = 1;
    in.ve[1].udist = 3;
    if (f == Feat::TIME || f == Feat::WIN)
        in.ve[0].udur = f == Feat::TIME, in.ve[1].udur = 2;
    for (size_t i = 0; i != nc; ++i)
        in.cl[i].req = i < 3 && vp_bool(nm("required", i).c_str());
    if (group)
    {
        in.gr.emplace_back();
        in.gr[0].clients = {3, 1};
        in.gr[0].req = vp_bool("group_required");
        in.cl[1].grp = in.cl[3].grp = 0;
        in.cl[1].req = false;
    }
    return in;
}
Plan plan()
{
    Plan p;
    p.routes.push_back({0, {C(1), C(0)}});
    p.routes.push_back({1, {C(2)}});
    return p;
}
Refs starts() { return Refs{at(0, 0), at(1, 0), at(2, 0)}; }

using Cands = std::vector<std::vector<Acts>>;
bool planned(S::Solution const &s, size_t client)
{
    for (auto const &r : listing(s))
        for (auto const &a : r)
            if (a.type == AT::CLIENT && a.idx == client)
                return true;
    return false;
}
Cands removal(ProblemData const &data, S::Solution const &s, Node *U)
{
    auto const &c = data.client(U->idx());
    if (!U->route() || c.required || (c.group && data.group(*c.group).required))
        return {};
    auto x = listing(s);
    auto &r = x[indexOf(s, U->route())];
    r.erase(r.begin() + (U->pos() - 1));
    return {x};
}
Cands insertion(ProblemData const &data, S::Solution const &s, Node *U, Node *V)
{
    auto const &c = data.client(U->idx());
    if (U->route() || !V->route())
        return {};
    if (c.group)
    {
        if (data.group(*c.group).required)
            return {};
        for (auto const other : data.group(*c.group))
            if (planned(s, other))
                return {};
    }
    auto x = listing(s);
    auto &r = x[indexOf(s, V->route())];
    r.insert(r.begin() + V->pos(), C(U->idx()));
    return {x};
}
Cands replaced(S::Solution const &s, Node *U, Node *V)
{
    auto x = listing(s);
    x[indexOf(s, V->route())][V->pos() - 1] = C(U->idx());
    return {x};
}
Cands replacement(ProblemData const &data, S::Solution const &s, Node *U, Node *V)
{
    if (U->route() || !V->route() || !V->isClient())
        return {};
    auto const &v = data.client(V->idx());
    if (v.required || v.group || data.client(U->idx()).group)
        return {};
    return replaced(s, U, V);
}
Cands regroup(ProblemData const &data, S::Solution const &s, Node *U)
{
    auto const &c = data.client(U->idx());
    if (U->route() || !c.group)
        return {};
    for (auto &route : const_cast<S::Solution &>(s).routes)
        for (auto *V : route)
            if (V->isClient() && data.client(V->idx()).group == c.group)
                return replaced(s, U, V);
    return {};
}

void removeClient(Feat f, bool g)
{
    Inst in = instance(f, g);
    unaryBest<S::RemoveOptionalClient>(in, plan(), f, clients(5), CHANGES, removal);
}
void removeTrip(Feat f)
{
    Inst in = instance(f, false);
    in.ve[0].reload = {1};
    Plan p;
    p.routes.push_back({0, {C(1), D(1), C(0)}});
    p.routes.push_back({1, {C(2)}});
    unaryBest<S::RemoveOptionalClient>(in, p, f, clients(3), CHANGES, removal);
}
void removeShip(Feat f)
{
    Inst in(2, 1, 1, {1}, f == Feat::LOAD);
    in.cl[0].req = in.cl[1].req = false;
    Plan p;
    p.routes.push_back({0, {P(0), C(0), L(0)}});
    unaryBest<S::RemoveOptionalClient>(in, p, f, clients(2), CHANGES, removal);
}
void insertClient(Feat f, bool g)
{
    Inst in = instance(f, g);
    binaryBest<S::InsertOptionalClient>(in, plan(), f, Refs{at(C(0)), at(C(3)), at(C(4))}, clients(5) + starts(), CHANGES, insertion);
}
// An optional group none of whose members is planned.
void insertGroup(Feat f)
{
    Inst in = instance(f, false);
    in.gr.emplace_back();
    in.gr[0].clients = {4, 3};
    in.gr[0].req = false;
    in.cl[3].grp = in.cl[4].grp = 0;
    binaryBest<S::InsertOptionalClient>(in, plan(), f, Refs{at(C(3)), at(C(4))}, Refs{at(C(1)), at(0, 0), at(1, 0)}, CHANGES, insertion);
}
void insertTrip(Feat f)
{
    Inst in = instance(f, false);
    in.ve[0].reload = {1};
    Plan p;
    p.routes.push_back({0, {C(1), D(1), C(0)}});
    p.routes.push_back({1, {C(2)}});
    binaryBest<S::InsertOptionalClient>(in, p, f, Refs{at(C(3))}, Refs{at(C(1)), at(C(0)), at(0, 2)}, CHANGES, insertion);
}
void replaceClient(Feat f, bool g)
{
    Inst in = instance(f, g);
    binaryBest<S::ReplaceOptionalClient>(in, plan(), f, clients(5), clients(5) + starts(), CHANGES, replacement);
}
void replaceGroup(Feat f)
{
    Inst in = instance(f, true);
    unaryBest<S::ReplaceGroup>(in, plan(), f, clients(5), CHANGES, regroup);
}
void replaceGroup3(Feat f)
{
    Inst in = instance(f, false, 5);
    in.gr.emplace_back();
    in.gr[0].clients = {3, 0, 4};
    in.gr[0].req = vp_bool("group_required");
    in.cl[0].grp = in.cl[3].grp = in.cl[4].grp = 0;
    in.cl[0].req = false;
    unaryBest<S::ReplaceGroup>(in, plan(), f, Refs{at(C(3)), at(C(4))}, CHANGES, regroup);
}
// Moves a group's member to another place, as another member.
std::vector<std::vector<Acts>> alternatives(ProblemData const &data, S::Solution const &s, Node *U, Node *V)
{
    std::vector<std::vector<Acts>> r;
    auto const g = data.client(U->idx()).group;
    if (!U->isClient() || !U->route() || !V->route() || !g)
        return r;
    if (U->route() == V->route() && (U->trip() != V->trip() || U->pos() == V->pos() + 1))
        return r;
    auto const base = listing(s);
    size_t const ru = indexOf(s, U->route()), rv = indexOf(s, V->route());
    for (auto const c : data.group(*g))
    {
        if (c == U->idx())
            continue;
        auto x = base;
        x[rv].insert(x[rv].begin() + V->pos(), C(c));
        size_t const pos = U->pos() - 1 + (ru == rv && V->pos() < U->pos());
        x[ru].erase(x[ru].begin() + pos);
        r.push_back(x);
    }
    return r;
}
void relocAlt(Feat f, bool three, bool trip)
{
    Inst in = instance(f, false);
    in.gr.emplace_back();
    in.gr[0].clients = three ? std::vector<size_t>{3, 1, 4} : std::vector<size_t>{3, 1};
    in.gr[0].req = vp_bool("group_required");
    for (auto c : in.gr[0].clients)
        in.cl[c].grp = 0, in.cl[c].req = false;
    Plan p = plan();
    if (trip)
    {
        in.ve[0].reload = {1};
        p.routes[0].second = {C(1), D(1), C(0)};
    }
    binaryBest<S::RelocateAlternative>(in, p, f, Refs{at(C(1)), at(C(0))}, clients(3) + starts(), CHANGES, alternatives);
}
void relocAltOne(Feat f)
{
    Inst in(4, 0, 1, {1}, f == Feat::LOAD);
    in.ve[0].udur = f == Feat::TIME;
    in.gr.emplace_back();
    in.gr[0].clients = {1, 3};
    in.cl[1].grp = in.cl[3].grp = 0;
    in.cl[1].req = in.cl[3].req = false;
    Plan p;
    p.routes.push_back({0, {C(0), C(1), C(2)}});
    binaryBest<S::RelocateAlternative>(in, p, f, Refs{at(C(1))}, Refs{at(C(0)), at(C(2)), at(0, 0)}, CHANGES, alternatives);
}
void relocAltCache()
{
    Inst in = instance(Feat::DIST, true, 4);
    cached<S::RelocateAlternative>(in, plan(), Feat::DIST, Refs{at(C(1)), at(C(3))}, Refs{at(C(0)), at(C(2)), at(1, 0)}, CHANGES);
}
// Which operators the search uses at all: none that would find a move is left out.
template <class Op> void used(ProblemData const &data, Plan const &p, CostEvaluator const &ce)
{
    S::Solution s(data);
    s.load(make(data, p));
    Op op(data);
    op.init(s);
    Node *U = &s.clients[vp_choose("U", data.numClients())];
    bool ok = false;
    if constexpr (std::is_base_of_v<S::UnaryOperator, Op>)
        ok = op.evaluate(U, ce).second;
    else
    {
        Refs const vs = clients(data.numClients()) + Refs{at(0, 0)};
        Node *V = find(s, vs[vp_choose("V", vs.size())]);
        if (U == V)
            return;
        ok = op.evaluate(U, V, ce).second;
    }
    if (ok)
    {
        vp_check(Op::supports(data), "operators that find moves are used for the instance");
        vp_cover("applied");
    }
    vp_cover("end");
}
template <class Op> void supported()
{
    Inst in(3, 0, 1, {1}, 0);
    Plan p;
    Acts a;
    in.gr.emplace_back();
    in.gr[0].req = vp_bool("group_required");
    for (size_t i = 0; i != 3; ++i)
    {
        // Everything required is planned, as in the search.
        size_t const how = vp_choose(nm("client", i).c_str(), 3);
        in.cl[i].req = how == 0;
        if (how == 2)
            in.gr[0].clients.push_back(i), in.cl[i].grp = 0;
        bool first = true;
        for (auto const &x : a)
            first = first && !(how == 2 && in.cl[x.idx].grp == 0);
        if (how == 0 || (how == 2 && in.gr[0].req ? first : first && vp_bool(nm("planned", i).c_str())))
            a.push_back(C(i));
    }
    if (in.gr[0].clients.empty())
    {
        vp_assume(in.gr[0].req);  // no group at all
        in.gr.clear();
    }
    if (!a.empty())
        p.routes.push_back({0, a});
    in.symDist(1'000'000'000);
    in.symPrizes(1'000'000'000);
    auto const data = in.build();
    used<Op>(data, p, CostEvaluator({}, 3, 2));
}
}  // namespace
#define E(NAME, ...)                                                                                                   \
    extern "C" void h_##NAME##_load()                                                                                  \
    {                                                                                                                  \
        Feat const f = Feat::LOAD;                                                                                     \
        __VA_ARGS__;                                                                                                   \
    }                                                                                                                  \
    extern "C" void h_##NAME##_time()                                                                                  \
    {                                                                                                                  \
        Feat const f = Feat::TIME;                                                                                     \
        __VA_ARGS__;                                                                                                   \
    }                                                                                                                  \
    extern "C" void h_##NAME##_win()                                                                                   \
    {                                                                                                                  \
        Feat const f = Feat::WIN;                                                                                      \
        __VA_ARGS__;                                                                                                   \
    }
E(remove, removeClient(f, false))
E(removeg, removeClient(f, true))
E(removetrip, removeTrip(f))
E(removeship, removeShip(f))
E(insert, insertClient(f, false))
E(insertg, insertClient(f, true))
E(insertnew, insertGroup(f))
E(inserttrip, insertTrip(f))
E(replace, replaceClient(f, false))
E(replaceg, replaceClient(f, true))
E(group, replaceGroup(f))
E(group3, replaceGroup3(f))
E(alt, relocAlt(f, false, false))
E(alt3, relocAlt(f, true, false))
E(alttrip, relocAlt(f, false, true))
E(altone, relocAltOne(f))
extern "C" void h_alt_cache() { relocAltCache(); }
extern "C" void h_used_remove() { supported<S::RemoveOptionalClient>(); }
extern "C" void h_used_insert() { supported<S::InsertOptionalClient>(); }
extern "C" void h_used_replace() { supported<S::ReplaceOptionalClient>(); }
extern "C" void h_used_group() { supported<S::ReplaceGroup>(); }
extern "C" void h_used_alternative() { supported<S::RelocateAlternative>(); }
