// Symbolic problem instances, and an independent oracle for what a route means.
//
// Inst stores plain integers; build() hands them to the real constructors. The
// oracle below only reads Inst and never calls into the code under test.
#pragma once
#include "common.h"

struct Act
{
    AT type;
    size_t idx;
};
inline Act C(size_t i) { return {AT::CLIENT, i}; }
inline Act D(size_t i) { return {AT::DEPOT, i}; }
inline Act P(size_t i) { return {AT::PICKUP, i}; }
inline Act L(size_t i) { return {AT::DELIVERY, i}; }  // deLivery
using Acts = std::vector<Act>;

struct Inst
{
    struct Cl
    {
        size_t loc = 0;
        std::vector<int64_t> del, pick;
        int64_t svc = 0, e = 0, l = IMAX, rel = 0, prize = 0;
        bool req = true;
        int grp = -1;
    };
    struct De
    {
        size_t loc = 0;
        int64_t e = 0, l = IMAX, svc = 0;
    };
    struct Sh
    {
        size_t ploc = 0, dloc = 0;
        int64_t pe = 0, pl = IMAX, psvc = 0, de = 0, dl = IMAX, dsvc = 0;
        std::vector<int64_t> amount;
        int64_t prize = 0;
        bool req = true;
    };
    struct Ve
    {
        int64_t num = 1;
        std::vector<int64_t> cap;
        size_t start = 0, end = 0;
        int64_t fixed = 0, e = 0, l = IMAX, shift = IMAX, maxdist = IMAX, udist = 1, udur = 0;
        size_t prof = 0;
        int64_t startLate = -1;  // -1: not given
        std::vector<int64_t> init;
        std::vector<size_t> reload;
        int64_t maxReloads = -1;  // -1: unlimited
        int64_t maxOvertime = 0, uot = 0;
    };
    struct Gr
    {
        std::vector<size_t> clients;
        bool req = true, excl = true;
    };

    size_t dims = 0, nlocs = 0;
    std::vector<Cl> cl;
    std::vector<De> de;
    std::vector<Sh> sh;
    std::vector<Ve> ve;
    std::vector<Gr> gr;
    std::vector<std::vector<std::vector<int64_t>>> dist, dur;  // per profile

    // nc clients, ns shipments, nd depots, one vehicle type per entry in nv.
    // Locations are shuffled so that no index equals its location by accident.
    Inst(size_t nc, size_t ns, size_t nd, std::vector<int64_t> nv, size_t ndims = 0, size_t profiles = 1)
        : dims(ndims), nlocs(nc + 2 * ns + nd)
    {
        auto const at = [&](size_t k) { return nlocs - 1 - (k + 1) % nlocs; };
        size_t k = 0;
        for (size_t i = 0; i != nc; ++i)
        {
            cl.emplace_back();
            cl[i].loc = at(k++);
            cl[i].del.resize(dims);
            cl[i].pick.resize(dims);
        }
        for (size_t i = 0; i != ns; ++i)
        {
            sh.emplace_back();
            sh[i].ploc = at(k++);
            sh[i].dloc = at(k++);
            sh[i].amount.resize(dims);
        }
        for (size_t i = 0; i != nd; ++i)
        {
            de.emplace_back();
            de[i].loc = at(k++);
        }
        for (auto n : nv)
        {
            ve.emplace_back();
            ve.back().num = n;
            ve.back().cap.resize(dims);
            ve.back().init.resize(dims);
        }
        std::vector<std::vector<int64_t>> z(nlocs, std::vector<int64_t>(nlocs, 0));
        dist.assign(profiles, z);
        dur.assign(profiles, z);
    }

    ProblemData build() const
    {
        std::vector<Location> locs;
        for (size_t i = 0; i != nlocs; ++i)
            locs.emplace_back(0, 0);
        auto const ld = [](std::vector<int64_t> const &v)
        {
            std::vector<Load> r;
            for (auto x : v)
                r.push_back(x);
            return r;
        };
        std::vector<Client> cs;
        for (auto const &c : cl)
            cs.emplace_back(c.loc,
                            ld(c.del),
                            ld(c.pick),
                            c.svc,
                            c.e,
                            c.l,
                            c.rel,
                            c.prize,
                            c.req,
                            c.grp < 0 ? std::nullopt : std::optional<size_t>(c.grp));
        std::vector<Depot> ds;
        for (auto const &d : de)
            ds.emplace_back(d.loc, d.e, d.l, d.svc);
        std::vector<Shipment> ss;
        for (auto const &s : sh)
            ss.emplace_back(
                s.ploc, s.dloc, s.pe, s.pl, s.psvc, s.de, s.dl, s.dsvc, ld(s.amount), s.prize, s.req);
        std::vector<VehicleType> vs;
        for (auto const &v : ve)
            vs.emplace_back(v.num,
                            ld(v.cap),
                            v.start,
                            v.end,
                            v.fixed,
                            v.e,
                            v.l,
                            v.shift,
                            v.maxdist,
                            v.udist,
                            v.udur,
                            v.prof,
                            v.startLate < 0 ? std::nullopt : std::optional<Duration>(v.startLate),
                            ld(v.init),
                            v.reload,
                            v.maxReloads < 0 ? std::numeric_limits<size_t>::max() : (size_t)v.maxReloads,
                            v.maxOvertime,
                            v.uot);
        std::vector<ClientGroup> gs;
        for (auto const &g : gr)
            gs.emplace_back(g.clients, g.req);
        std::vector<Matrix<Distance>> dm;
        std::vector<Matrix<Duration>> tm;
        for (size_t p = 0; p != dist.size(); ++p)
        {
            Matrix<Distance> d(nlocs, nlocs, 0);
            Matrix<Duration> t(nlocs, nlocs, 0);
            for (size_t i = 0; i != nlocs; ++i)
                for (size_t j = 0; j != nlocs; ++j)
                {
                    d(i, j) = dist[p][i][j];
                    t(i, j) = dur[p][i][j];
                }
            dm.push_back(d);
            tm.push_back(t);
        }
        return ProblemData(locs, cs, ds, vs, dm, tm, gs, ss);
    }

    // ---- symbolic fillers -------------------------------------------------
    void symDist(int64_t B)
    {
        for (size_t p = 0; p != dist.size(); ++p)
            for (size_t i = 0; i != nlocs; ++i)
                for (size_t j = 0; j != nlocs; ++j)
                    if (i != j)
                        dist[p][i][j] = sym(nm(("dist" + std::to_string(p)).c_str(), i, j), 0, B);
    }
    void symDur(int64_t B)
    {
        for (size_t p = 0; p != dur.size(); ++p)
            for (size_t i = 0; i != nlocs; ++i)
                for (size_t j = 0; j != nlocs; ++j)
                    if (i != j)
                        dur[p][i][j] = sym(nm(("dur" + std::to_string(p)).c_str(), i, j), 0, B);
    }
    static void symTw(std::string const &n, int64_t &e, int64_t &l, int64_t B)
    {
        e = sym(n + "_early", 0, B);
        l = sym(n + "_late", 0, B);
        vp_assume(e <= l);
    }
    void symClientTw(int64_t B)
    {
        for (size_t i = 0; i != cl.size(); ++i)
            symTw(nm("client", i), cl[i].e, cl[i].l, B);
    }
    void symClientSvc(int64_t B)
    {
        for (size_t i = 0; i != cl.size(); ++i)
            cl[i].svc = sym(nm("client_service", i), 0, B);
    }
    void symRelease(int64_t B)
    {
        for (size_t i = 0; i != cl.size(); ++i)
        {
            cl[i].rel = sym(nm("release", i), 0, B);
            vp_assume(cl[i].rel <= cl[i].l);
        }
    }
    void symShipTw(int64_t B)
    {
        for (size_t i = 0; i != sh.size(); ++i)
        {
            symTw(nm("pickup", i), sh[i].pe, sh[i].pl, B);
            symTw(nm("delivery", i), sh[i].de, sh[i].dl, B);
            vp_assume(sh[i].dl >= sh[i].pe);  // required of the data
        }
    }
    void symShipSvc(int64_t B)
    {
        for (size_t i = 0; i != sh.size(); ++i)
        {
            sh[i].psvc = sym(nm("pickup_service", i), 0, B);
            sh[i].dsvc = sym(nm("delivery_service", i), 0, B);
        }
    }
    void symDepotTw(int64_t B)
    {
        for (size_t i = 0; i != de.size(); ++i)
            symTw(nm("depot", i), de[i].e, de[i].l, B);
    }
    void symDepotSvc(int64_t B)
    {
        for (size_t i = 0; i != de.size(); ++i)
            de[i].svc = sym(nm("depot_service", i), 0, B);
    }
    void symVehTw(int64_t B, bool startLate = true)
    {
        for (size_t i = 0; i != ve.size(); ++i)
        {
            symTw(nm("vehicle", i), ve[i].e, ve[i].l, B);
            if (startLate)
            {
                ve[i].startLate = sym(nm("vehicle_start_late", i), 0, B);
                vp_assume(ve[i].e <= ve[i].startLate && ve[i].startLate <= ve[i].l);
            }
        }
        // Requirement of the data: vehicle and depot windows must overlap.
        for (auto const &v : ve)
        {
            vp_assume(de[v.start].e <= v.l && de[v.start].l >= v.e);
            vp_assume(de[v.end].e <= v.l && de[v.end].l >= v.e);
        }
    }
    void symShift(int64_t B)
    {
        for (size_t i = 0; i != ve.size(); ++i)
        {
            ve[i].shift = sym(nm("shift_duration", i), 0, B);
            ve[i].maxOvertime = sym(nm("max_overtime", i), 0, B);
        }
    }
    void symMaxDist(int64_t B)
    {
        for (size_t i = 0; i != ve.size(); ++i)
            ve[i].maxdist = sym(nm("max_distance", i), 0, B);
    }
    void symFixed(int64_t B)
    {
        for (size_t i = 0; i != ve.size(); ++i)
            ve[i].fixed = sym(nm("fixed_cost", i), 0, B);
    }
    void symLoads(int64_t B, bool init = true)
    {
        for (size_t d = 0; d != dims; ++d)
        {
            for (size_t i = 0; i != cl.size(); ++i)
            {
                cl[i].del[d] = sym(nm("deliver", i, d), 0, B);
                cl[i].pick[d] = sym(nm("collect", i, d), 0, B);
            }
            for (size_t i = 0; i != sh.size(); ++i)
                sh[i].amount[d] = sym(nm("amount", i, d), 0, B);
            for (size_t i = 0; i != ve.size(); ++i)
            {
                ve[i].cap[d] = sym(nm("capacity", i, d), 0, B);
                if (init)
                {
                    ve[i].init[d] = sym(nm("initial_load", i, d), 0, B);
                    vp_assume(ve[i].init[d] <= ve[i].cap[d]);
                }
            }
        }
    }
    void symPrizes(int64_t B)
    {
        for (size_t i = 0; i != cl.size(); ++i)
            cl[i].prize = sym(nm("prize", i), 0, B);
        for (size_t i = 0; i != sh.size(); ++i)
            sh[i].prize = sym(nm("shipment_prize", i), 0, B);
    }

    // ---- oracle -----------------------------------------------------------
    size_t locOf(Act const &a) const
    {
        switch (a.type)
        {
        case AT::DEPOT:
            return de[a.idx].loc;
        case AT::CLIENT:
            return cl[a.idx].loc;
        case AT::PICKUP:
            return sh[a.idx].ploc;
        default:
            return sh[a.idx].dloc;
        }
    }
    static Acts full(Inst const &in, size_t vt, Acts const &acts)
    {
        Acts r;
        r.push_back(D(in.ve[vt].start));
        for (auto const &a : acts)
            r.push_back(a);
        r.push_back(D(in.ve[vt].end));
        return r;
    }
    template <typename M> int64_t total(M const &mats, size_t vt, Acts const &acts) const
    {
        auto const f = full(*this, vt, acts);
        int64_t s = 0;
        for (size_t i = 1; i < f.size(); ++i)
            s += mats[ve[vt].prof][locOf(f[i - 1])][locOf(f[i])];
        return s;
    }
    int64_t serviceTotal(size_t vt, Acts const &acts) const
    {
        int64_t s = de[ve[vt].start].svc;
        for (auto const &a : acts)
            s += a.type == AT::DEPOT    ? de[a.idx].svc
                 : a.type == AT::CLIENT ? cl[a.idx].svc
                 : a.type == AT::PICKUP ? sh[a.idx].psvc
                                        : sh[a.idx].dsvc;
        return s;
    }
    // Release time of the trip that starts just before acts[from].
    int64_t tripRelease(Acts const &acts, size_t from) const
    {
        int64_t r = 0;
        for (size_t i = from; i < acts.size() && acts[i].type != AT::DEPOT; ++i)
            if (acts[i].type == AT::CLIENT)
                r = imax(r, cl[acts[i].idx].rel);
        return r;
    }
    int64_t maxDuration(size_t vt) const
    {
        auto const &v = ve[vt];
        return v.shift > IMAX - v.maxOvertime ? IMAX : v.shift + v.maxOvertime;
    }
    // Leaves the start depot at time t; warp is the time warp of the schedule,
    // and duration the total time it takes (time warp undone).
    void simulate(size_t vt, Acts const &acts, int64_t t, int64_t &warp, int64_t &duration) const
    {
        auto const &v = ve[vt];
        int64_t const sl = v.startLate < 0 ? v.l : v.startLate;
        warp = 0;
        int64_t now = t;
        auto const event = [&](int64_t e, int64_t l)
        {
            int64_t const w = imax(now - l, 0);
            warp += w;
            now = imax(now - w, e);
        };
        event(v.e, sl);
        event(de[v.start].e, de[v.start].l);
        now += de[v.start].svc;
        auto const &m = dur[v.prof];
        size_t prev = de[v.start].loc;
        for (size_t i = 0; i != acts.size(); ++i)
        {
            auto const &a = acts[i];
            now += m[prev][locOf(a)];
            prev = locOf(a);
            switch (a.type)
            {
            case AT::DEPOT:
                now = imax(now, tripRelease(acts, i + 1));
                event(de[a.idx].e, de[a.idx].l);
                now += de[a.idx].svc;
                break;
            case AT::CLIENT:
                event(cl[a.idx].e, cl[a.idx].l);
                now += cl[a.idx].svc;
                break;
            case AT::PICKUP:
                event(sh[a.idx].pe, sh[a.idx].pl);
                now += sh[a.idx].psvc;
                break;
            case AT::DELIVERY:
                event(sh[a.idx].de, sh[a.idx].dl);
                now += sh[a.idx].dsvc;
                break;
            }
        }
        now += m[prev][de[v.end].loc];
        event(de[v.end].e, de[v.end].l);
        event(v.e, v.l);
        duration = now - t + warp;
    }
    int64_t excessLoad(size_t vt, Acts const &acts, size_t d) const
    {
        auto const &v = ve[vt];
        int64_t excess = 0;
        size_t i = 0;
        bool first = true;
        while (true)
        {
            int64_t onboard = first ? v.init[d] : 0;  // on board at trip start
            first = false;
            for (size_t j = i; j < acts.size() && acts[j].type != AT::DEPOT; ++j)
                if (acts[j].type == AT::CLIENT)
                    onboard += cl[acts[j].idx].del[d];
            int64_t peak = onboard;
            for (; i < acts.size() && acts[i].type != AT::DEPOT; ++i)
            {
                auto const &a = acts[i];
                if (a.type == AT::CLIENT)
                    onboard += cl[a.idx].pick[d] - cl[a.idx].del[d];
                else if (a.type == AT::PICKUP)
                    onboard += sh[a.idx].amount[d];
                else
                    onboard -= sh[a.idx].amount[d];
                peak = imax(peak, onboard);
            }
            excess += imax(peak - v.cap[d], 0);
            if (i == acts.size())
                return excess;
            ++i;  // skip the reload depot
        }
    }
    int64_t prizes(Acts const &acts) const
    {
        int64_t s = 0;
        for (auto const &a : acts)
            s += a.type == AT::CLIENT ? cl[a.idx].prize : a.type == AT::PICKUP ? sh[a.idx].prize : 0;
        return s;
    }
};

inline std::vector<Activity> conv(Acts const &acts)
{
    std::vector<Activity> r;
    for (auto const &a : acts)
        r.emplace_back(a.type, a.idx);
    return r;
}

// A sequence of n activities, each any of the given alphabet (enumerated).
inline Acts chooseActs(char const *name, size_t n, Acts const &alphabet)
{
    Acts r;
    for (size_t i = 0; i != n; ++i)
        r.push_back(alphabet[vp_choose(nm(name, i).c_str(), alphabet.size())]);
    return r;
}

// Whether the sequence is a well-formed route: indices exist, shipments are
// picked up before they are delivered, exactly once, and within one trip, and
// there are no more trips than the vehicle can do.
inline bool wellFormed(Inst const &in, size_t vt, Acts const &acts)
{
    std::vector<int> state(in.sh.size(), 0);
    int64_t trips = 1;
    for (auto const &a : acts)
        switch (a.type)
        {
        case AT::DEPOT:
            if (a.idx >= in.de.size())
                return false;
            for (auto s : state)
                if (s == 1)
                    return false;
            trips++;
            break;
        case AT::CLIENT:
            if (a.idx >= in.cl.size())
                return false;
            break;
        case AT::PICKUP:
            if (a.idx >= in.sh.size() || state[a.idx] != 0)
                return false;
            state[a.idx] = 1;
            break;
        case AT::DELIVERY:
            if (a.idx >= in.sh.size() || state[a.idx] != 1)
                return false;
            state[a.idx] = 2;
            break;
        }
    for (auto s : state)
        if (s == 1)
            return false;
    auto const &v = in.ve[vt];
    int64_t const maxTrips = v.reload.empty() ? 1 : v.maxReloads < 0 ? IMAX : v.maxReloads + 1;
    return trips <= maxTrips;
}

inline bool distinctClients(Acts const &acts)
{
    for (size_t i = 0; i < acts.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            if (acts[i].type == AT::CLIENT && acts[j].type == AT::CLIENT && acts[i].idx == acts[j].idx)
                return false;
    return true;
}
