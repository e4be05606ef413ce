// Problem instances, seen through the bindings: which are accepted, what they
// report, and what replacing parts of them does.
#include "bound.h"

namespace
{
using Item = py::Item;
template <class T> Item pyv(T const &v) { return py::toPy<false>(v); }
constexpr int64_t B = 1'000'000'000;

struct Parts
{
    std::vector<Location> locations;
    std::vector<Client> clients;
    std::vector<Depot> depots;
    std::vector<VehicleType> vehicles;
    std::vector<Matrix<Distance>> dists;
    std::vector<Matrix<Duration>> durs;
    std::vector<ClientGroup> groups;
    std::vector<Shipment> shipments;

    Kwargs kwargs() const
    {
        return {{"locations", pyv(locations)},
                {"clients", pyv(clients)},
                {"depots", pyv(depots)},
                {"vehicle_types", pyv(vehicles)},
                {"distance_matrices", pyv(dists)},
                {"duration_matrices", pyv(durs)},
                {"groups", pyv(groups)},
                {"shipments", pyv(shipments)}};
    }
};
std::optional<ProblemData> tryData(Kwargs const &kw)
{
    try
    {
        return construct<ProblemData>(kw);
    }
    catch (std::invalid_argument const &)
    {
        return std::nullopt;
    }
    catch (std::out_of_range const &)
    {
        return std::nullopt;
    }
}
Parts base(size_t locs, size_t profiles = 1)
{
    Parts p;
    for (size_t i = 0; i != locs; ++i)
        p.locations.emplace_back(i, i + 1);
    for (size_t k = 0; k != profiles; ++k)
    {
        p.dists.emplace_back(locs, locs, 0);
        p.durs.emplace_back(locs, locs, 0);
    }
    return p;
}
int64_t index(char const *n, int64_t hi = IMAX) { return sym(n, 0, hi); }
void verdict(Parts const &p, bool valid)
{
    auto const d = tryData(p.kwargs());
    vp_cover(d ? "accepted" : "rejected");
    vp_check(d.has_value() == valid, "accepted exactly when the instance is consistent");
}
std::vector<Load> zeroes(size_t n) { return std::vector<Load>(n, 0); }
}  // namespace

// Locations, groups and their members refer to each other consistently.
extern "C" void h_data_clients()
{
    loadModule();
    size_t const locs = 1 + vp_choose("locations", 2);
    Parts p = base(locs);
    bool ok = true;
    struct
    {
        int64_t loc, grp;
        bool in, req;
    } c[2];
    size_t const nc = vp_choose("clients", 3);
    for (size_t i = 0; i != nc; ++i)
    {
        c[i].loc = index(nm("location", i).c_str());
        c[i].in = vp_choose(nm("grouped", i).c_str(), 2);
        c[i].grp = c[i].in ? index(nm("group", i).c_str()) : 0;
        c[i].req = vp_bool(nm("required", i).c_str());
        p.clients.emplace_back(c[i].loc,
                               zeroes(0),
                               zeroes(0),
                               0,
                               0,
                               IMAX,
                               0,
                               0,
                               c[i].req,
                               c[i].in ? std::optional<size_t>(c[i].grp) : std::nullopt);
        ok = ok & (c[i].loc < (int64_t)locs);
    }
    p.depots.emplace_back(0);
    p.vehicles.emplace_back();
    size_t const ng = vp_choose("groups", 3);
    for (size_t g = 0; g != ng; ++g)
    {
        std::vector<size_t> members;
        size_t const n = vp_choose(nm("members", g).c_str(), 3);
        for (size_t k = 0; k != n; ++k)
            members.push_back(index(nm("member", g, k).c_str()));
        if (n == 2)
            vp_assume(members[0] != members[1]);
        ok = ok & (n > 0);
        for (auto m : members)
        {
            bool refers = false;
            for (size_t i = 0; i != nc; ++i)
                refers = refers | ((m == i) & c[i].in & (c[i].grp == (int64_t)g));
            ok = ok & refers;
        }
        p.groups.emplace_back(members, vp_bool(nm("group_required", g).c_str()));
    }
    for (size_t i = 0; i != nc; ++i)
        if (c[i].in)
        {
            bool listed = false;
            for (size_t g = 0; g != ng; ++g)
                for (auto m : p.groups[g].clients())
                    listed = listed | ((m == i) & (c[i].grp == (int64_t)g));
            ok = ok & listed & !c[i].req;
        }
    verdict(p, ok);
}
// Everything has the same number of load dimensions.
extern "C" void h_data_dims()
{
    loadModule();
    Parts p = base(1);
    size_t const v0 = vp_choose("vehicle", 3), v1 = vp_choose("second vehicle", 3), c = vp_choose("client", 3),
                 s = vp_choose("shipment", 3);
    bool const client = vp_choose("with client", 2), ship = vp_choose("with shipment", 2), two = vp_choose("two", 2);
    if (client)
        p.clients.emplace_back(0, zeroes(c), zeroes(c));
    if (ship)
        p.shipments.emplace_back(0, 0, 0, IMAX, 0, 0, IMAX, 0, zeroes(s));
    p.depots.emplace_back(0);
    p.vehicles.emplace_back(1, zeroes(v0));
    if (two)
        p.vehicles.emplace_back(1, zeroes(v1));
    bool const ok = (!client || c == v0) && (!ship || s == v0) && (!two || v1 == v0);
    verdict(p, ok);
    if (!ok)
        return;
    auto const d = construct<ProblemData>(p.kwargs());
    vp_check(getAttr(d, "num_load_dimensions").cast<size_t>() == v0, "number of load dimensions");
}
// Vehicles refer to depots and profiles that exist, and to depots that are open.
extern "C" void h_data_vehicles()
{
    loadModule();
    size_t const profiles = 1 + vp_choose("profiles", 2);
    Parts p = base(1, profiles);
    size_t const nd = vp_choose("depots", 3);
    int64_t de[2], dl[2];
    bool ok = nd > 0;
    for (size_t i = 0; i != nd; ++i)
    {
        de[i] = index(nm("depot_early", i).c_str());
        dl[i] = index(nm("depot_late", i).c_str());
        int64_t const loc = index(nm("depot_location", i).c_str());
        vp_assume(de[i] <= dl[i]);
        ok = ok & (loc == 0);
        p.depots.emplace_back(loc, de[i], dl[i]);
    }
    size_t const nv = vp_choose("vehicles", 2);
    ok = ok & (nv > 0);
    for (size_t i = 0; i != nv; ++i)
    {
        int64_t const s = index("start"), e = index("end"), prof = index("profile"), r = index("reload"),
                      te = index("early"), tl = index("late");
        vp_assume(te <= tl);
        std::vector<size_t> reload;
        if (vp_choose("reloads", 2))
        {
            reload.push_back(r);
            ok = ok & (r < (int64_t)nd);
        }
        ok = ok & (s < (int64_t)nd) & (e < (int64_t)nd) & (prof < (int64_t)profiles);
        for (size_t k = 0; k != nd; ++k)
        {
            bool const overlap = (de[k] <= tl) & (te <= dl[k]);
            ok = ok & ((s != (int64_t)k) | overlap) & ((e != (int64_t)k) | overlap);
        }
        int64_t const available = sym("available", 1, IMAX);
        int64_t const fixed = index("fixed_cost");
        int64_t const shift = index("shift");
        int64_t const dist = index("max_distance");
        int64_t const ud = index("unit_distance");
        int64_t const ut = index("unit_duration");
        int64_t const reloads = index("max_reloads");
        p.vehicles.emplace_back(
            available, zeroes(0), s, e, fixed, te, tl, shift, dist, ud, ut, prof, std::nullopt, zeroes(0), reload, reloads);
    }
    verdict(p, ok);
}
extern "C" void h_data_shipments()
{
    loadModule();
    size_t const locs = 1 + vp_choose("locations", 2);
    Parts p = base(locs);
    p.depots.emplace_back(0);
    p.vehicles.emplace_back();
    bool ok = true;
    for (int i = 0; i != 2; ++i)
    {
        int64_t const a = index(nm("pickup", i).c_str()), b = index(nm("delivery", i).c_str());
        p.shipments.emplace_back(a, b);
        ok = ok & (a < (int64_t)locs) & (b < (int64_t)locs);
    }
    verdict(p, ok);
}
// Matrices have the right shape, and nothing on the diagonal.
extern "C" void h_data_matrices()
{
    loadModule();
    size_t const locs = 1 + vp_choose("locations", 2);
    Parts p = base(locs, 0);
    p.depots.emplace_back(0);
    p.vehicles.emplace_back();
    size_t const n = vp_choose("distance matrices", 3), m = vp_choose("duration matrices", 3);
    bool ok = n > 0 && n == m;
    // At most one of the matrices has another shape.
    size_t const odd = vp_choose("odd", 5);
    size_t const rows = 1 + vp_choose("rows", 2), cols = 1 + vp_choose("cols", 2);
    for (size_t k = 0; k != n + m; ++k)
    {
        bool const d = k < n;
        size_t const r = k == odd ? rows : locs, c = k == odd ? cols : locs;
        ok = ok && r == locs && c == locs;
        Matrix<Distance> dm(r, c, 0);
        Matrix<Duration> tm(r, c, 0);
        for (size_t i = 0; i != r; ++i)
            for (size_t j = 0; j != c; ++j)
            {
                int64_t const v = sym(nm(nm("m", k).c_str(), i, j), -B, B);
                d ? (void)(dm(i, j) = v) : (void)(tm(i, j) = v);
                ok = ok & ((i != j) | (v == 0));
            }
        d ? p.dists.push_back(dm) : p.durs.push_back(tm);
    }
    verdict(p, ok);
}

namespace
{
// A consistent instance with everything in it.
Parts full(std::string const &suffix, size_t clients = 2)
{
    Parts p = base(3, 2);
    auto const s = [&](char const *n, int64_t lo = 0) { return sym(n + suffix, lo, B); };
    for (size_t k = 0; k != 2; ++k)
        for (size_t i = 0; i != 3; ++i)
            for (size_t j = 0; j != 3; ++j)
                if (i != j)
                {
                    p.dists[k](i, j) = s(nm(nm("dist", k).c_str(), i, j).c_str(), -B);
                    p.durs[k](i, j) = s(nm(nm("dur", k).c_str(), i, j).c_str(), -B);
                }
    auto const load = [&](char const *n) { return std::vector<Load>{s(n)}; };
    p.clients.emplace_back(1, load("deliver"), load("collect"), s("service"), 0, IMAX, s("release"), s("prize"));
    if (clients > 1)
        p.clients.emplace_back(2, load("deliver2"), load("collect2"), 0, 0, IMAX, 0, s("prize2"), false, 0);
    p.depots.emplace_back(0, 0, IMAX, s("depot_service"));
    p.depots.emplace_back(2);
    auto const num = sym("vehicles" + suffix, 1, int64_t(1) << 40);
    p.vehicles.emplace_back(num, load("capacity"), 0, 1, s("fixed", -B));
    p.vehicles.emplace_back(2, load("capacity2"), 1, 1, 0, 0, IMAX, s("shift"), s("maxdist"), 1, 0, 1);
    if (clients > 1)
        p.groups.emplace_back(std::vector<size_t>{1}, vp_bool(("group_required" + suffix).c_str()));
    p.shipments.emplace_back(1, 2, 0, IMAX, 0, 0, IMAX, 0, load("amount"), s("ship_prize"));
    return p;
}
void reports(ProblemData const &d, Parts const &p, std::string const &what)
{
    sameItem(callMethod(d, "locations"), pyv(p.locations), what);
    sameItem(callMethod(d, "clients"), pyv(p.clients), what);
    sameItem(callMethod(d, "depots"), pyv(p.depots), what);
    sameItem(callMethod(d, "vehicle_types"), pyv(p.vehicles), what);
    sameItem(callMethod(d, "distance_matrices"), pyv(p.dists), what);
    sameItem(callMethod(d, "duration_matrices"), pyv(p.durs), what);
    sameItem(callMethod(d, "groups"), pyv(p.groups), what);
    sameItem(callMethod(d, "shipments"), pyv(p.shipments), what);
    auto const n = [&](char const *a, size_t v)
    { vp_check(getAttr(d, a).cast<size_t>() == v, (what + ": " + a).c_str()); };
    n("num_locations", p.locations.size());
    n("num_clients", p.clients.size());
    n("num_depots", p.depots.size());
    n("num_vehicle_types", p.vehicles.size());
    n("num_groups", p.groups.size());
    n("num_shipments", p.shipments.size());
    n("num_profiles", p.dists.size());
    size_t total = 0;
    for (auto const &v : p.vehicles)
        total += v.numAvailable;
    n("num_vehicles", total);
}
template <class T> void element(ProblemData const &d, char const *method, char const *param, std::vector<T> const &v)
{
    int64_t const i = index(method);
    std::optional<Item> got;
    try
    {
        got = callMethod(d, method, {{param, pyv(i)}});
    }
    catch (pybind11::index_error const &)
    {
    }
    vp_check(got.has_value() == (i < (int64_t)v.size()), "an index error exactly when there is no such element");
    if (!got)
        return;
    sameItem(*got, pyv(v[vp_concrete(i)]), "the element with that index");
}
}  // namespace

extern "C" void h_data_reports()
{
    loadModule();
    Parts const p = full("");
    auto const d = construct<ProblemData>(p.kwargs());
    reports(d, p, "reports what it was given");
    ProblemData const copy(d);
    reports(copy, p, "a copy reports the same");
    vp_check(copy == d, "a copy is equal");
}
extern "C" void h_data_element()
{
    loadModule();
    Parts const p = full("");
    auto const d = construct<ProblemData>(p.kwargs());
    switch (vp_choose("which", 8))
    {
    case 0:
        return element(d, "location", "location", p.locations);
    case 1:
        return element(d, "client", "client", p.clients);
    case 2:
        return element(d, "depot", "depot", p.depots);
    case 3:
        return element(d, "shipment", "shipment", p.shipments);
    case 4:
        return element(d, "group", "group", p.groups);
    case 5:
        return element(d, "vehicle_type", "vehicle_type", p.vehicles);
    case 6:
        return element(d, "distance_matrix", "profile", p.dists);
    case 7:
        return element(d, "duration_matrix", "profile", p.durs);
    }
}
extern "C" void h_data_replace()
{
    loadModule();
    Parts const p = full("");
    Parts q = full("'", 1 + vp_choose("clients", 2));
    auto const d = construct<ProblemData>(p.kwargs());
    Parts want{p.locations, p.clients, p.depots, p.vehicles, p.dists, p.durs, p.groups, p.shipments};
    auto const kw = p.kwargs(), kq = q.kwargs();
    size_t const i = vp_choose("replaced", 9), j = vp_choose("also", 9);
    Kwargs given, direct;
    for (size_t k = 0; k != 8; ++k)
    {
        bool const r = k == i || k == j;
        direct.push_back(r ? kq[k] : kw[k]);
        if (r)
            given.push_back(kq[k]);
    }
    std::optional<ProblemData> got;
    try
    {
        got.emplace(callMethod(d, "replace", given).cast<ProblemData>());
    }
    catch (std::invalid_argument const &)
    {
    }
    catch (std::out_of_range const &)
    {
    }
    auto const anew = tryData(direct);
    vp_check(got.has_value() == anew.has_value(), "replacing is refused exactly when such an instance is");
    reports(d, p, "the original is left alone");
    if (!got)
        return;
    vp_check(*got == *anew, "replacing equals constructing anew");
    for (auto const &[name, v] : direct)
        sameItem(callMethod(*got, name.c_str()), v, "only the given parts are replaced: " + name);
}
extern "C" void h_data_equal()
{
    loadModule();
    Parts const p = full("");
    Parts q{p.locations, p.clients, p.depots, p.vehicles, p.dists, p.durs, p.groups, p.shipments};
    auto const x = sym("x", 0, B), y = sym("y", 0, B);
    auto const edit = [&](auto &v, auto make)
    {
        auto rest = v;
        v.clear();
        for (size_t k = 0; k + 1 < rest.size(); ++k)
            v.push_back(rest[k]);
        v.push_back(make);
    };
    Parts a{p.locations, p.clients, p.depots, p.vehicles, p.dists, p.durs, p.groups, p.shipments};
    switch (vp_choose("part", 8))
    {
    case 0:
        a.locations.emplace_back((double)0, 0), q.locations.emplace_back((double)0, 0);
        return;
    case 1:
        a.depots.emplace_back(0, 0, IMAX, x), q.depots.emplace_back(0, 0, IMAX, y);
        break;
    case 2:
        a.vehicles.emplace_back(1, std::vector<Load>{x}), q.vehicles.emplace_back(1, std::vector<Load>{y});
        break;
    case 3:
        a.dists[1](0, 1) = x, q.dists[1](0, 1) = y;
        break;
    case 4:
        a.durs[0](2, 1) = x, q.durs[0](2, 1) = y;
        break;
    case 5:
        a.shipments.emplace_back(1, 2, 0, IMAX, 0, 0, IMAX, x, zeroes(1));
        q.shipments.emplace_back(1, 2, 0, IMAX, 0, 0, IMAX, y, zeroes(1));
        break;
    case 6:
        a.clients.emplace_back(1, zeroes(1), zeroes(1), x), q.clients.emplace_back(1, zeroes(1), zeroes(1), y);
        break;
    case 7:
    {
        a.groups.clear(), q.groups.clear();
        bool const r = vp_bool("r"), s = vp_bool("s");
        a.groups.emplace_back(std::vector<size_t>{1}, r), q.groups.emplace_back(std::vector<size_t>{1}, s);
        vp_check((construct<ProblemData>(a.kwargs()) == construct<ProblemData>(q.kwargs())) == (r == s),
                 "equal exactly when all parts are");
        return;
    }
    }
    vp_check((construct<ProblemData>(a.kwargs()) == construct<ProblemData>(q.kwargs())) == (x == y),
             "equal exactly when all parts are");
}
// There are time windows exactly when something is bounded in time.
extern "C" void h_data_windows()
{
    loadModule();
    Parts p = base(1);
    bool any = false;
    auto const w = [&](char const *n, int64_t &e, int64_t &l)
    {
        e = index((std::string(n) + "_early").c_str());
        l = index((std::string(n) + "_late").c_str());
        vp_assume(e <= l);
        any = any | (e != 0) | (l != IMAX);
    };
    int64_t e, l, de, dl, ve, vl, pe, pl, le, ll;
    w("client", e, l);
    p.clients.emplace_back(0, zeroes(0), zeroes(0), index("service"), e, l);
    w("depot", de, dl);
    p.depots.emplace_back(0, de, dl, index("depot service"));
    w("vehicle", ve, vl);
    vp_assume(de <= vl && dl >= ve);
    int64_t const sl = index("start_late");
    vp_assume(ve <= sl && sl <= vl);
    any = any | (sl != IMAX);
    p.vehicles.emplace_back(1, zeroes(0), 0, 0, 0, ve, vl, index("shift"), IMAX, 1, 0, 0, sl);
    w("pickup", pe, pl);
    w("delivery", le, ll);
    vp_assume(pe <= ll);
    p.shipments.emplace_back(0, 0, pe, pl, 0, le, ll);
    auto const d = construct<ProblemData>(p.kwargs());
    vp_check(callMethod(d, "has_time_windows").cast<bool>() == any, "has time windows exactly when some are given");
}
