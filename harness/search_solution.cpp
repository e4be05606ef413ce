// The search's solution representation: loading, unloading, inserting and
// perturbing.
#include "searchsol.h"

namespace
{
std::vector<Plan> catalogue(bool ships)
{
    std::vector<Plan> r;
    auto const add = [&](std::vector<std::pair<size_t, Acts>> x) { r.push_back({x}); };
    add({});
    add({{0, {C(0)}}});
    add({{0, {C(1)}}});
    add({{1, {C(0)}}});
    add({{0, {C(0)}}, {0, {C(1)}}});
    add({{0, {C(1)}}, {0, {C(0)}}});
    add({{0, {C(0), C(1)}}});
    add({{0, {C(1), C(0)}}});
    add({{0, {C(0), D(1), C(1)}}});
    add({{0, {C(0), D(0), C(1)}}});
    add({{0, {C(0)}}, {1, {C(1)}}});
    add({{1, {C(0)}}, {0, {C(1)}}});
    add({{1, {C(1), C(0)}}});
    if (ships)
    {
        add({{0, {P(0), L(0)}}});
        add({{0, {P(0), C(0), L(0)}}});
        add({{0, {P(0), L(0)}}, {0, {C(0)}}});
        add({{0, {C(0)}}, {0, {P(0), L(0)}}});
        add({{1, {P(0), L(0), C(0)}}});
        add({{0, {C(0), D(1), P(0), L(0)}}, {1, {C(1)}}});
    }
    return r;
}
bool samePlan(Inst const &in, Solution const &sol, Plan const &p)
{
    if (sol.routes().size() != p.routes.size())
        return false;
    // the search solution orders routes by type; within a type order is kept
    std::vector<std::pair<size_t, Acts>> want;
    for (size_t t = 0; t != in.ve.size(); ++t)
        for (auto const &x : p.routes)
            if (x.first == t)
                want.push_back(x);
    for (size_t i = 0; i != want.size(); ++i)
    {
        auto const &r = sol.routes()[i];
        if (r.vehicleType() != want[i].first || r.size() != want[i].second.size() + 2)
            return false;
        for (size_t j = 0; j != want[i].second.size(); ++j)
            if (r[j + 1].type() != want[i].second[j].type || r[j + 1].idx() != want[i].second[j].idx)
                return false;
    }
    return true;
}

// Loads one solution, possibly edits it the way the search does, and loads
// another: exactly the other must be represented.
void reload(bool ships, bool edit)
{
    Inst in = instance(2, ships, Feat::DIST);
    for (auto &c : in.cl)
        c.req = false;
    auto const cat = catalogue(ships);
    size_t const a = vp_choose("first", cat.size()), b = vp_choose("second", cat.size());
    symFeat(in, edit ? Feat::DIST : Feat::TIME);
    auto const data = in.build();
    S::Solution s(data);
    Solution const solA = make(data, cat[a]), solB = make(data, cat[b]);
    s.load(solA);
    consistent(in, s);
    vp_check(samePlan(in, s.unload(), cat[a]), "the loaded solution is the given one");
    if (edit && s.clients[0].route())
    {
        auto *r = s.clients[0].route();
        r->remove(s.clients[0].pos());
        r->update();
        if (r->empty())
            r->clear();
        if (vp_bool("reinsert"))
        {
            auto &to = s.routes[vp_choose("into", 3)];
            to.insert(1, &s.clients[0]);
            to.update();
        }
    }
    s.load(solB);
    consistent(in, s);
    auto const out = s.unload();
    vp_check(samePlan(in, out, cat[b]), "loading replaces whatever was there");
    vp_check(out == solB, "unloading returns an equal solution");
    CostEvaluator const ce(loadPen(in), 3, 2);
    vp_check(ce.penalisedCost(s).get() == ce.penalisedCost(solB).get(), "and one of equal cost");
    vp_cover("end");
}

// ---- insertion -----------------------------------------------------------
// Whether after equals before with the extra visits added somewhere.
bool onlyAdds(std::vector<Acts> const &before, std::vector<Acts> const &after, Acts const &extra)
{
    size_t found = 0;
    for (size_t r = 0; r != before.size(); ++r)
    {
        size_t j = 0;
        for (auto const &x : after[r])
        {
            bool isExtra = false;
            for (auto const &e : extra)
                isExtra = isExtra || (e.type == x.type && e.idx == x.idx);
            if (isExtra)
            {
                found++;
                continue;
            }
            if (j == before[r].size() || before[r][j].type != x.type || before[r][j].idx != x.idx)
                return false;
            j++;
        }
        if (j != before[r].size())
            return false;
    }
    return found == extra.size();
}

void insertion(Feat f, int which, bool ship)
{
    Inst in = instance(3, 2, f);
    Plan p;
    if (which == 0)
    {
        p.routes.push_back({0, {C(1), P(1), L(1)}});
        p.routes.push_back({1, {C(2)}});
    }
    else if (which == 1)  // several trips
    {
        p.routes.push_back({0, {C(1), D(1), C(2)}});
    }
    else if (which == 2)  // nothing planned
    {
    }
    else  // no empty vehicles, and the neighbours are not planned
    {
        p.routes.push_back({0, {C(1)}});
        p.routes.push_back({0, {C(2)}});
        p.routes.push_back({1, {P(1), L(1)}});
    }
    bool const required = vp_bool("required");
    symFeat(in, f);
    auto const data = in.build();
    S::Solution s(data);
    s.load(make(data, p));
    auto nb = complete(in);
    if (which == 3)
    {
        nb[A(C(0))] = {A(P(0))};
        nb[A(P(0))] = {A(C(0))};
    }
    S::SearchSpace space(data, nb);
    CostEvaluator const ce(loadPen(in), 3, 2);
    auto const before = listing(s);
    int64_t const cb = costOf(data, s, ce, before);

    // The candidates: next to a planned neighbour.
    std::vector<std::vector<Acts>> cands;
    if (which != 3)
        for (size_t r = 0; r != before.size(); ++r)
        {
            bool empty = before[r].empty();
            for (size_t i = 0; !empty && i != before[r].size(); ++i)
            {
                if (before[r][i].type == AT::DEPOT)
                    continue;
                auto x = before;
                if (!ship)
                {
                    x[r].insert(x[r].begin() + i + 1, C(0));
                    cands.push_back(x);
                }
                else
                    for (size_t pk = i; pk != i + 2; ++pk)
                        for (size_t dl = pk;; ++dl)
                        {
                            auto y = before;
                            y[r].insert(y[r].begin() + dl, L(0));
                            y[r].insert(y[r].begin() + pk, P(0));
                            cands.push_back(y);
                            if (dl == before[r].size() || before[r][dl].type == AT::DEPOT)
                                break;
                        }
            }
        }

    bool const done = ship ? s.insert(&s.shipments[0].first, &s.shipments[0].second, space, ce, required)
                           : s.insert(&s.clients[0], space, ce, required);
    auto const after = listing(s);
    if (done)
    {
        for (auto &r : s.routes)
            r.update();
        consistent(in, s);
        vp_check(onlyAdds(before, after, ship ? Acts{P(0), L(0)} : Acts{C(0)}), "only the inserted visits are added");
        int64_t const ca = costOf(data, s, ce, after);
        vp_check(required || ca < cb, "optional visits are only inserted if that improves the cost");
        for (auto const &c : cands)
            vp_check(ca <= costOf(data, s, ce, c), "the insertion is the cheapest among the neighbours");
        vp_cover("inserted");
    }
    else
    {
        vp_check(!required, "required visits are always inserted");
        vp_check(onlyAdds(before, after, {}), "declined insertions change nothing");
        for (auto const &c : cands)
            vp_check(costOf(data, s, ce, c) >= cb, "improving insertions are not declined");
        vp_cover("declined");
    }
    vp_cover("end");
}

}  // namespace

extern "C" void h_reload() { reload(false, false); }
extern "C" void h_reload_edit() { reload(false, true); }
extern "C" void h_reload_ship() { reload(true, false); }
extern "C" void h_reload_shipedit() { reload(true, true); }

#define INS(W)                                                                                                         \
    extern "C" void h_ins##W##_client_load() { insertion(Feat::LOAD, W, false); }                                      \
    extern "C" void h_ins##W##_client_time() { insertion(Feat::TIME, W, false); }                                      \
    extern "C" void h_ins##W##_client_win() { insertion(Feat::WIN, W, false); }                                        \
    extern "C" void h_ins##W##_ship_load() { insertion(Feat::LOAD, W, true); }                                         \
    extern "C" void h_ins##W##_ship_dist() { insertion(Feat::DIST, W, true); }                                         \
    extern "C" void h_ins##W##_ship_time() { insertion(Feat::TIME, W, true); }                                         \
    extern "C" void h_ins##W##_ship_win() { insertion(Feat::WIN, W, true); }
INS(0)
INS(1)
INS(2)
INS(3)
