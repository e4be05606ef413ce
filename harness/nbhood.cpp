// Granular neighbourhoods: for each client and pickup the closest other visits.
#include "searchsol.h"

#include "search/neighbourhood.h"

#include <set>

namespace
{
constexpr int64_t FAR = int64_t(1) << 60;
struct Stop
{
    size_t loc;
    int64_t svc, e, l;
};
Stop stop(Inst const &in, Act a)
{
    if (a.type == AT::CLIENT)
    {
        auto const &c = in.cl[a.idx];
        return {c.loc, c.svc, c.e, c.l};
    }
    auto const &s = in.sh[a.idx];
    if (a.type == AT::PICKUP)
        return {s.ploc, s.psvc, s.pe, s.pl};
    return {s.dloc, s.dsvc, s.de, s.dl};
}
struct Params
{
    int64_t weight2 = 0;  // twice the weight of waiting
    size_t num = 10;
    bool symmetric = true;
};
// Twice the documented proximity.
int64_t arc(Inst const &in, Inst::Ve const &v, Params const &pa, Stop const &a, Stop const &b)
{
    int64_t const dist = in.dist[v.prof][a.loc][b.loc], dur = in.dur[v.prof][a.loc][b.loc];
    if (b.l != IMAX && a.e + a.svc + dur > b.l)
        return FAR;
    int64_t const wait = a.l == IMAX ? 0 : imax(b.e - dur - a.svc - a.l, 0);
    return 2 * v.udist * dist + 2 * v.udur * (dur + wait) + pa.weight2 * wait;
}
int64_t proximity(Inst const &in, Params const &pa, Act u, Act x)
{
    if (u.type == AT::CLIENT && x.type == AT::CLIENT && in.cl[u.idx].grp >= 0 && in.cl[u.idx].grp == in.cl[x.idx].grp)
        return FAR;
    std::vector<Stop> from{stop(in, u)};
    if (u.type == AT::PICKUP)
        from.push_back(stop(in, L(u.idx)));
    int64_t best = FAR;
    for (auto const &v : in.ve)
        for (auto const &f : from)
        {
            best = imin(best, arc(in, v, pa, f, stop(in, x)));
            if (pa.symmetric)
                best = imin(best, arc(in, v, pa, stop(in, x), f));
        }
    return best;
}
void neighbours(Inst const &in, Params const &pa)
{
    auto const data = in.build();
    auto const nb = S::computeNeighbours(data, S::NeighbourhoodParams(pa.weight2 / 2.0, pa.num, pa.symmetric));
    size_t const nc = in.cl.size(), ns = in.sh.size();
    vp_check(nb.size() == nc + ns, "each client and pickup has neighbours, and nothing else");
    Acts all;
    for (size_t i = 0; i != nc; ++i)
        all.push_back(C(i));
    for (size_t i = 0; i != ns; ++i)
        all.push_back(P(i)), all.push_back(L(i));
    auto const same = [](Act a, Activity const &b) { return b.type() == a.type && b.idx() == a.idx; };
    for (auto const &u : all)
    {
        if (u.type == AT::DELIVERY)
            continue;
        auto const it = nb.find(A(u));
        vp_check(it != nb.end(), "each client and pickup has neighbours");
        auto const &list = it->second;
        size_t const others = (nc ? nc - 1 : 0) + (ns ? 2 * ns - 2 : 0);
        vp_check(list.size() <= pa.num && list.size() >= std::min(pa.num, others), "as many neighbours as asked for");
        std::vector<int64_t> dist(list.size(), -1);
        size_t found = 0;
        int64_t bestOut = FAR;
        for (auto const &x : all)
        {
            bool const own = x.idx == u.idx && (x.type == u.type || (u.type == AT::PICKUP && x.type == AT::DELIVERY));
            size_t times = 0;
            for (size_t i = 0; i != list.size(); ++i)
                if (same(x, list[i]))
                    times++, dist[i] = own ? 0 : proximity(in, pa, u, x);
            vp_check(times <= 1, "no neighbour twice");
            vp_check(!own || times == 0, "nothing neighbours itself or its own delivery");
            found += times;
            if (!own && times == 0)
                bestOut = imin(bestOut, proximity(in, pa, u, x));
        }
        vp_check(found == list.size(), "neighbours exist");
        for (size_t i = 0; i + 1 < list.size(); ++i)
            vp_check(dist[i] <= dist[i + 1], "neighbours are sorted by proximity");
        vp_check(list.empty() || dist.back() <= bestOut, "the closest are the neighbours");
    }
    vp_cover("end");
}
constexpr int64_t M = 1'000'000;
void windows(Inst &in)
{
    for (size_t i = 0; i != in.cl.size(); ++i)
    {
        in.cl[i].e = sym(nm("early", i), 0, M), in.cl[i].l = sym(nm("late", i), 0, M);
        in.cl[i].svc = sym(nm("service", i), 0, M);
        vp_assume(in.cl[i].e <= in.cl[i].l);
    }
    for (size_t i = 0; i != in.sh.size(); ++i)
    {
        auto &s = in.sh[i];
        s.pe = sym(nm("pickup_early", i), 0, M), s.pl = sym(nm("pickup_late", i), 0, M);
        s.de = sym(nm("delivery_early", i), 0, M), s.dl = sym(nm("delivery_late", i), 0, M);
        vp_assume(s.pe <= s.pl && s.de <= s.dl && s.pe <= s.dl);
    }
}
struct Costs
{
    int64_t dist, dur;
    size_t prof;
};
void run(size_t nc, size_t ns, bool win, bool dur, bool group, std::vector<int64_t> types, Params pa, std::vector<Costs> costs = {})
{
    size_t profiles = costs.empty() ? types.size() : 1;
    for (auto const &c : costs)
        profiles = std::max(profiles, c.prof + 1);
    Inst in(nc, ns, 1, types, 0, profiles);
    for (size_t t = 0; t != types.size(); ++t)
    {
        in.ve[t].prof = costs.empty() ? t : costs[t].prof;
        in.ve[t].udist = costs.empty() ? (dur ? 1 : 1 + 2 * t) : costs[t].dist;
        in.ve[t].udur = costs.empty() ? (dur ? 2 - t : 0) : costs[t].dur;
    }
    in.symDist(M);
    if (dur)
        in.symDur(M);
    if (group)
    {
        in.gr.push_back({{0, 2}, false});
        in.cl[0].grp = in.cl[2].grp = 0;
        in.cl[0].req = in.cl[2].req = false;
    }
    if (win)
        windows(in);
    else if (dur)  // windows that never matter
    {
        for (auto &c : in.cl)
            c.e = 0, c.l = 8 * M;
        for (auto &x : in.sh)
            x.pe = x.de = 0, x.pl = x.dl = 8 * M;
    }
    neighbours(in, pa);
}
}  // namespace
extern "C" void h_nb_three() { run(3, 0, false, false, false, {1}, {0, size_t(1 + vp_choose("num", 3)), true}); }
extern "C" void h_nb_four() { run(4, 0, false, false, false, {1}, {0, 2, false}); }
extern "C" void h_nb_group() { run(3, 0, false, false, true, {1}, {0, size_t(1 + vp_choose("num", 3)), true}); }
extern "C" void h_nb_dur() { run(3, 0, true, true, false, {1}, {2, 1, vp_choose("symmetric", 2) == 1}); }
extern "C" void h_nb_types() { run(3, 0, false, false, false, {1, 1}, {0, 1, false}); }
extern "C" void h_nb_types2() { run(2, 0, true, true, false, {1, 1}, {0, 1, true}); }
extern "C" void h_nb_ship() { run(1, 1, false, false, false, {1}, {0, 3, true}); }
extern "C" void h_nb_ships() { run(0, 2, false, false, false, {1}, {0, size_t(1 + vp_choose("num", 3)), true}); }
extern "C" void h_nb_mix() { run(2, 1, false, false, false, {1}, {0, size_t(1 + vp_choose("num", 3)), false}); }
extern "C" void h_nb_win2() { run(2, 0, true, true, false, {1}, {1, 1, true}); }
extern "C" void h_nb_win3() { run(3, 0, true, true, false, {1}, {1, 1, false}); }
extern "C" void h_nb_winship() { run(1, 1, true, true, false, {1}, {4, 2, false}); }
extern "C" void h_nb_one() { run(1, 0, false, false, false, {1}, {0, 5, true}); }
extern "C" void h_nb_winships() { run(0, 2, true, true, false, {1}, {1, 1, true}); }
extern "C" void h_nb_winmix() { run(2, 1, true, true, false, {1}, {1, 2, false}); }
extern "C" void h_nb_wingroup() { run(3, 0, true, true, true, {1}, {1, 2, true}); }
extern "C" void h_nb_wintypes() { run(3, 0, true, true, false, {1, 1}, {4, 2, false}); }
// Types that share a profile, and differ in one or both of the unit costs.
std::vector<Costs> const SHARED[] = {{{1, 0, 0}, {0, 1, 0}}, {{1, 2, 0}, {1, 0, 0}}, {{2, 1, 0}, {0, 1, 0}}, {{1, 1, 0}, {1, 1, 1}}};
extern "C" void h_nb_shared() { run(3, 0, false, true, false, {1, 1}, {0, 1, false}, SHARED[vp_choose("costs", 4)]); }
extern "C" void h_nb_shared3() { run(3, 0, false, true, false, {1, 1, 1}, {0, 1, false}, {{1, 0, 0}, {0, 3, 1}, {0, 1, 0}}); }
extern "C" void h_nb_asym_ships() { run(0, 2, false, false, false, {1}, {0, size_t(1 + vp_choose("num", 3)), false}); }
extern "C" void h_nb_asym_mix() { run(1, 2, false, false, false, {1}, {0, 1, false}); }
extern "C" void h_nb_asym_ship() { run(1, 1, false, true, false, {1}, {0, size_t(1 + vp_choose("num", 3)), false}); }
