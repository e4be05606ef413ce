// Pickling: what comes out is what went in, for every class that supports it.
#include "bound.h"

namespace
{
constexpr int64_t B = 1'000'000'000;

template <class T> void roundTrip(T const &v)
{
    T const w = pickled(v);
    vp_check(w == v && v == w, "the copy equals the original");
    sameObject(v, w, "the copy reports what the original does");
}
std::vector<Load> loads(char const *n, size_t dims)
{
    std::vector<Load> r;
    for (size_t i = 0; i != dims; ++i)
        r.push_back(sym(nm(n, i), 0, B));
    return r;
}
int64_t pos(char const *n, int64_t hi = IMAX) { return sym(n, 0, hi); }
}  // namespace

extern "C" void h_pickle_activity()
{
    loadModule();
    roundTrip(Activity((AT)vp_choose("type", 4), pos("idx")));
}
extern "C" void h_pickle_location()
{
    loadModule();
    roundTrip(Location(sym("x", -B, B), sym("y", -B, B), vp_choose("named", 2) ? "place" : ""));
}
extern "C" void h_pickle_client()
{
    loadModule();
    auto const dims = vp_choose("dims", 3);
    auto const early = pos("early"), late = pos("late"), rel = pos("release");
    vp_assume(early <= late && rel <= late);
    bool const grouped = vp_choose("grouped", 2);
    bool const required = vp_bool("required");
    vp_assume(!grouped || !required);
    std::optional<size_t> const group = grouped ? std::optional<size_t>(pos("group")) : std::nullopt;
    roundTrip(Client(pos("location"),
                     loads("delivery", dims),
                     loads("pickup", dims),
                     pos("service"),
                     early,
                     late,
                     rel,
                     pos("prize"),
                     required,
                     group,
                     "client"));
}
extern "C" void h_pickle_depot()
{
    loadModule();
    auto const early = pos("early"), late = pos("late");
    vp_assume(early <= late);
    roundTrip(Depot(pos("location"), early, late, pos("service"), "depot"));
}
extern "C" void h_pickle_shipment()
{
    loadModule();
    auto const pe = pos("pickup early"), pl = pos("pickup late"), de = pos("delivery early"), dl = pos("delivery late");
    vp_assume(pe <= pl && de <= dl && pe <= dl);
    Shipment const s(pos("pickup location"),
                     pos("delivery location"),
                     pe,
                     pl,
                     pos("pickup service"),
                     de,
                     dl,
                     pos("delivery service"),
                     loads("amount", vp_choose("dims", 3)),
                     pos("prize"),
                     vp_bool("required"),
                     "shipment");
    roundTrip(s.pickup);
    roundTrip(s);
}
extern "C" void h_pickle_group()
{
    loadModule();
    std::vector<size_t> clients;
    auto const n = vp_choose("members", 3);
    for (int i = 0; i != n; ++i)
        clients.push_back(pos(nm("member", i).c_str()));
    if (n == 2)
        vp_assume(clients[0] != clients[1]);
    roundTrip(ClientGroup(clients, vp_bool("required"), "group"));
}
extern "C" void h_pickle_vehicle()
{
    loadModule();
    auto const dims = vp_choose("dims", 3);
    auto const early = pos("early"), late = pos("late"), start = pos("start late");
    vp_assume(early <= start && start <= late);
    auto const num = pos("available", B);
    vp_assume(num > 0);
    auto const cap = loads("capacity", dims);
    auto const init = loads("initial", dims);
    for (int i = 0; i != dims; ++i)
        vp_assume(init[i] <= cap[i]);
    std::vector<size_t> reload;
    auto const n = vp_choose("reloads", 3);
    for (int i = 0; i != n; ++i)
        reload.push_back(pos(nm("reload", i).c_str()));
    auto const overtime = pos("overtime");
    roundTrip(VehicleType(num,
                          cap,
                          pos("start"),
                          pos("end"),
                          sym("fixed", -B, B),
                          early,
                          late,
                          pos("shift"),
                          pos("distance"),
                          pos("unit distance"),
                          pos("unit duration"),
                          pos("profile"),
                          start,
                          init,
                          reload,
                          vp_choose("limited", 2) ? pos("max reloads") : std::numeric_limits<size_t>::max(),
                          overtime,
                          pos("unit overtime"),
                          "vehicle"));
}
extern "C" void h_pickle_data()
{
    loadModule();
    Inst in(2, 1, 2, {1, 2}, 1, 2);
    in.symDist(B);
    in.symDur(B);
    in.symLoads(B);
    in.symPrizes(B);
    in.symFixed(B);
    in.cl[1].grp = 0, in.cl[1].req = false;
    in.gr.push_back({{1}, vp_bool("group required")});
    in.ve[0].reload = {1};
    in.ve[1].prof = 1;
    in.sh[0].req = vp_bool("shipment required");
    auto const data = in.build();
    roundTrip(data);
}

namespace
{
Solution plan(Inst &in, bool optional)
{
    auto const data = in.build();
    std::vector<Route> routes;
    if (vp_choose("first", 2))
        routes.emplace_back(data, conv({C(0), D(1), C(1)}), 0);
    switch (vp_choose("second", optional ? 3 : 2))
    {
    case 1:
        routes.emplace_back(data, conv({P(0), C(2), L(0)}), 1);
        break;
    case 2:
        routes.emplace_back(data, conv({C(2)}), 1);
        break;
    }
    return Solution(data, routes);
}
Inst instance(bool time)
{
    Inst in(3, 1, 2, {1, 2}, 2, 2);
    in.symDist(B);
    in.symPrizes(B);
    in.symFixed(B);
    in.symMaxDist(B);
    in.ve[0].udist = 3, in.ve[1].udist = 2;
    in.cl[2].req = vp_bool("client required");
    in.sh[0].req = vp_bool("shipment required");
    in.cl[1].grp = 0, in.cl[1].req = false;
    in.gr.push_back({{1}, vp_bool("group required")});
    in.ve[0].reload = {1};
    in.ve[1].prof = 1;
    if (time)
    {
        in.symDur(B);
        in.symShift(B);
        in.ve[0].udur = 5, in.ve[1].uot = 7;
        in.cl[0].svc = sym("service", 0, B);
        in.cl[1].rel = sym("release", 0, B);
        in.cl[2].e = sym("early", 0, B);
    }
    else
        in.symLoads(B);
    return in;
}
}  // namespace

extern "C" void h_pickle_solution()
{
    loadModule();
    auto in = instance(false);
    auto const sol = plan(in, true);
    roundTrip(sol);
}
extern "C" void h_pickle_solution_time()
{
    loadModule();
    auto in = instance(true);
    auto const sol = plan(in, false);
    roundTrip(sol);
}
extern "C" void h_pickle_plf()
{
    loadModule();
    std::vector<int64_t> bp{sym("b0", -B, B), sym("b1", -B, B)};
    vp_assume(bp[0] < bp[1]);
    std::vector<PLF::Segment> segs;
    for (int i = 0; i != 3; ++i)
        segs.emplace_back(sym(nm("intercept", i), -B, B), sym(nm("slope", i), -B, B));
    PLF const f(bp, segs);
    PLF const g = pickled(f);
    vp_check(g == f && g.breakpoints() == f.breakpoints() && g.segments() == f.segments(), "the copy equals the original");
}
extern "C" void h_pickle_bitset()
{
    loadModule();
    DynamicBitset b(130);
    size_t const idx[] = {0, 1, 31, 63, 64, 127, 128, 129};
    for (auto i : idx)
        b[i] = vp_choose(nm("bit", i).c_str(), 2);
    DynamicBitset const c = pickled(b);
    vp_check(c == b && c.size() == b.size() && c.count() == b.count(), "the copy equals the original");
    for (size_t i = 0; i != 192; ++i)
        vp_check(c[i] == static_cast<DynamicBitset const &>(b)[i], "every bit is kept");
}
