// P01: a route's duration, time warp, start time, slack and schedule are those
// of the best departure time, compared against a step-by-step simulation.
#include "inst.h"

namespace
{
constexpr int64_t B = 1'000'000'000;

struct Feat
{
    bool clientTw = true, shipTw = true, depotTw = true, vehTw = true, shift = true, release = true;
};

void symbolic(Inst &in, Feat f)
{
    in.symDur(B);
    in.symClientSvc(B);
    in.symShipSvc(B);
    in.symDepotSvc(B);
    if (f.clientTw)
        in.symClientTw(B);
    if (f.release)
        in.symRelease(B);
    if (f.shipTw)
        in.symShipTw(B);
    if (f.depotTw)
        in.symDepotTw(B);
    if (f.vehTw)
        in.symVehTw(B);
    if (f.shift)
        in.symShift(B);
}

// Full comparison for one activity sequence.
void compare(Inst const &in, Acts const &acts)
{
    size_t const vt = 0;
    auto const &v = in.ve[vt];
    auto const data = in.build();
    Route const route(data, conv(acts), vt);

    int64_t const rel = in.tripRelease(acts, 0);
    vp_check(route.releaseTime().get() == rel, "release time is that of the first trip");
    vp_check(route.travelDuration().get() == in.total(in.dur, vt, acts), "travel duration");
    vp_check(route.serviceDuration().get() == in.serviceTotal(vt, acts), "service duration");

    int64_t const start = route.startTime().get(), slack = route.slack().get();
    int64_t const t0 = imax(start, rel);
    int64_t w0, d0;
    in.simulate(vt, acts, t0, w0, d0);
    vp_check(route.duration().get() == d0, "duration is attained by leaving at the start time");
    int64_t const md = in.maxDuration(vt);
    vp_check(route.timeWarp().get() == w0 + imax(d0 - w0 - md, 0), "time warp is attained by leaving at the start time");
    vp_check(start >= rel || w0 > 0, "start time not before release without time warp");
    vp_check(route.hasTimeWarp() == (route.timeWarp().get() > 0), "has time warp flag");
    vp_check(route.endTime().get() == start + route.duration().get() - route.timeWarp().get(), "end time");
    vp_check(route.waitDuration().get()
                 == route.duration().get() - route.travelDuration().get() - route.serviceDuration().get(),
             "wait duration");
    vp_check(route.overtime().get() == imax(d0 - v.shift, 0), "overtime");
    vp_check(route.durationCost().get() == v.udur * d0 + v.uot * imax(d0 - v.shift, 0), "duration cost");
    vp_check(slack >= 0, "slack is non-negative");

    // No departure time does better.
    int64_t const t = sym("departure", 0, 2 * B);
    vp_assume(t >= rel);
    int64_t w, d;
    in.simulate(vt, acts, t, w, d);
    vp_check(w >= w0, "time warp is minimal over departure times");
    vp_check(w > w0 || d >= d0, "duration is minimal over departure times");
    vp_check(t >= t0 || w > w0 || d > d0, "start time is the earliest best departure");
    vp_check(t < t0 || t - start > slack || (w == w0 && d == d0), "slack delays keep the schedule best");
    vp_check(t < t0 || t - start <= slack || w > w0 || d > d0, "delays beyond slack are worse");
    vp_cover("end");
    vp_observe(route.duration().get());
    vp_observe(route.timeWarp().get());
    vp_observe(start);
    vp_observe(slack);
}

// The schedule entries, replayed from the start time.
void schedule(Inst const &in, Acts const &acts)
{
    size_t const vt = 0;
    auto const &v = in.ve[vt];
    auto const data = in.build();
    Route const route(data, conv(acts), vt);
    auto const &sched = route.schedule();
    auto const full = Inst::full(in, vt, acts);

    vp_check(sched.size() == full.size() && route.size() == full.size(), "schedule length");
    int64_t const sl = v.startLate < 0 ? v.l : v.startLate;
    int64_t now = route.startTime().get();
    size_t trip = 0;
    int64_t totalWait = 0, totalTw = 0;
    for (size_t i = 0; i != full.size(); ++i)
    {
        auto const &a = full[i];
        int64_t e, l, s;
        if (a.type == AT::DEPOT)
        {
            auto const &dep = in.de[a.idx];
            bool const last = i + 1 == full.size();
            int64_t const rel = last ? 0 : in.tripRelease(acts, i);
            trip += i > 0;
            e = imax(dep.e, imin(rel, dep.l));
            l = i == 0 ? imin(dep.l, sl) : dep.l;
            s = last ? 0 : dep.svc;
        }
        else if (a.type == AT::CLIENT)
            e = in.cl[a.idx].e, l = in.cl[a.idx].l, s = in.cl[a.idx].svc;
        else if (a.type == AT::PICKUP)
            e = in.sh[a.idx].pe, l = in.sh[a.idx].pl, s = in.sh[a.idx].psvc;
        else
            e = in.sh[a.idx].de, l = in.sh[a.idx].dl, s = in.sh[a.idx].dsvc;

        if (i > 0)
            now += in.dur[v.prof][in.locOf(full[i - 1])][in.locOf(a)];
        int64_t const wait = imax(e - now, 0), tw = imax(now - l, 0);
        now += wait - tw;
        auto const &x = sched[i];
        vp_check(x.type() == a.type && x.idx() == a.idx, "schedule activity");
        vp_check(x.trip() == trip, "schedule trip index");
        vp_check(x.waitDuration().get() == wait, "schedule waiting time");
        vp_check(x.timeWarp().get() == tw, "schedule time warp");
        vp_check(x.startTime().get() == now, "schedule start of service");
        vp_check(x.endTime().get() == now + s && x.duration().get() == s, "schedule end of service");
        now += s;
        totalWait += wait;
        totalTw += tw;
    }
    vp_check(route.hasTimeWarp() || totalTw == 0, "no time warp in the schedule of a route without time warp");
    vp_check(route.hasTimeWarp() || totalWait == route.waitDuration().get(), "schedule waiting adds up");
    vp_check(route.hasTimeWarp() || now == route.endTime().get(), "schedule ends at the end time");
    vp_check(route.numTrips() == trip && route.numDepots() == trip + 1, "number of trips and depots");
    vp_cover("end");
}

template <bool S> void run(Inst &in, Acts const &acts, Feat f = {})
{
    in.ve[0].udur = 2;
    in.ve[0].uot = 5;
    symbolic(in, f);
    if (S)
        schedule(in, acts);
    else
        compare(in, acts);
}

template <bool S> void clients(size_t n, Feat f = {})
{
    Inst in(n, 0, 1, {1});
    Acts a;
    for (size_t i = n; i-- != 0;)
        a.push_back(C(i));
    run<S>(in, a, f);
}
template <bool S> void twodepots(size_t n)
{
    Inst in(n, 0, 2, {1});
    in.ve[0].start = 1;
    Acts a;
    for (size_t i = 0; i != n; ++i)
        a.push_back(C(i));
    run<S>(in, a);
}
// Clients split over trips of the given sizes.
template <bool S> void trips(std::vector<size_t> sizes)
{
    size_t n = 0;
    for (auto s : sizes)
        n += s;
    Inst in(n, 0, 2, {1});
    in.ve[0].reload = {1};
    Acts a;
    size_t c = 0;
    for (size_t t = 0; t != sizes.size(); ++t)
    {
        if (t)
            a.push_back(D(t % 2));
        for (size_t i = 0; i != sizes[t]; ++i)
            a.push_back(C(c++));
    }
    run<S>(in, a);
}
template <bool S> void ship(size_t k)
{
    Inst in(1, k, 1, {1});
    Acts a;
    a.push_back(P(0));
    if (k > 1)
        a.push_back(P(1));
    a.push_back(C(0));
    a.push_back(L(0));
    if (k > 1)
        a.push_back(L(1));
    run<S>(in, a);
}
}  // namespace

#define BOTH(NAME, ...)                                                                                                \
    extern "C" void h_time_##NAME()                                                                                    \
    {                                                                                                                  \
        constexpr bool S = false;                                                                                      \
        __VA_ARGS__;                                                                                                   \
    }                                                                                                                  \
    extern "C" void h_sched_##NAME()                                                                                   \
    {                                                                                                                  \
        constexpr bool S = true;                                                                                       \
        __VA_ARGS__;                                                                                                   \
    }

BOTH(c0, clients<S>(0))
BOTH(c1, clients<S>(1))
BOTH(c2, clients<S>(2))
BOTH(c3, clients<S>(3))
BOTH(c4, clients<S>(4))
BOTH(d2, twodepots<S>(2))
BOTH(notw, clients<S>(3, Feat{false, false, false, false, true, true}))
BOTH(nodepottw, clients<S>(2, Feat{true, true, false, false, true, true}))
BOTH(trip11, trips<S>({1, 1}))
BOTH(trip21, trips<S>({2, 1}))
BOTH(trip12, trips<S>({1, 2}))
BOTH(trip101, trips<S>({1, 0, 1}))
BOTH(trip111, trips<S>({1, 1, 1}))
BOTH(trip22, trips<S>({2, 2}))
BOTH(trip01, trips<S>({0, 1}))
BOTH(trip10, trips<S>({1, 0}))
BOTH(ship1, ship<S>(1))
BOTH(ship2, ship<S>(2))
