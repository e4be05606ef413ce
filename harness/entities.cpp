// The building blocks of a problem instance, seen through the bindings: what is
// accepted, what is reported back, defaults, equality and replacement.
#include "bound.h"

#include <functional>

namespace
{
using Item = py::Item;
Item num(int64_t v) { return py::toPy<false>(v); }
Item txt(char const *v) { return py::toPy<false>(std::string(v)); }
Item none() { return Item{}; }
Item list(std::vector<int64_t> const &v) { return py::toPy<false>(v); }
constexpr int64_t LO = -1'000'000'000'000;

// A parameter: its name, the value given, and what is reported when it is omitted.
struct Field
{
    std::string name;
    Item value;
    std::optional<Item> def;
    bool nonNegative = false;  // negative values are refused
};
struct Entity
{
    std::vector<Field> fields;
    std::string suffix;

    int64_t any(char const *n, std::optional<int64_t> def = std::nullopt, bool nonNeg = true, int64_t lo = LO)
    {
        int64_t const v = sym(n + suffix, lo, IMAX);
        fields.push_back({n, num(v), def ? std::optional<Item>(num(*def)) : std::nullopt, nonNeg});
        return v;
    }
    // An index or count, which cannot be negative at all.
    int64_t idx(char const *n, std::optional<int64_t> def = std::nullopt) { return any(n, def, false, 0); }
    bool flag(char const *n, bool def)
    {
        bool const v = vp_bool((n + suffix).c_str());
        fields.push_back({n, num(v), num(def)});
        return v;
    }
    void name(char const *v = "some name") { fields.push_back({"name", txt(v), txt("")}); }
    std::vector<int64_t> amounts(char const *n, size_t size, bool idx = false)
    {
        std::vector<int64_t> v;
        for (size_t i = 0; i != size; ++i)
            v.push_back(sym(nm((n + suffix).c_str(), i), idx ? 0 : LO, IMAX));
        fields.push_back({n, list(v), list({})});
        return v;
    }
    Kwargs kwargs(std::string const &omit = "") const
    {
        Kwargs kw;
        for (auto const &f : fields)
            if (f.name != omit && !(omit == "*" && f.def))
                kw.emplace_back(f.name, f.value);
        return kw;
    }
};
template <class T> std::optional<T> tryMake(Kwargs const &kw)
{
    try
    {
        return construct<T>(kw);
    }
    catch (std::invalid_argument const &)
    {
        return std::nullopt;
    }
}
bool allNonNeg(std::vector<int64_t> const &v)
{
    bool ok = true;
    for (auto x : v)
        ok = ok & (x >= 0);
    return ok;
}
// Accepted exactly when valid, and then reports every value given.
template <class T> void given(Entity const &e, bool valid)
{
    auto const v = tryMake<T>(e.kwargs());
    vp_check(v.has_value() == valid, "accepted exactly when the values are valid");
    if (!v)
    {
        vp_cover("rejected");
        return;
    }
    vp_cover("accepted");
    T const copy(*v);
    T moved(copy);
    T const taken(std::move(moved));
    vp_check(copy == *v && taken == *v, "copies are equal");
    for (auto const &f : e.fields)
    {
        sameItem(getAttr(*v, f.name), f.value, "reports the value given: " + f.name);
        sameItem(getAttr(copy, f.name), f.value, "copies report the value given: " + f.name);
        sameItem(getAttr(taken, f.name), f.value, "copies report the value given: " + f.name);
    }
}
// Omitted values take their documented defaults; the others are as given.
template <class T> void omitted(Entity const &e, std::string const &which)
{
    auto const v = tryMake<T>(e.kwargs(which));
    vp_check(v.has_value(), "values may be omitted");
    for (auto const &f : e.fields)
    {
        bool const gone = f.name == which || (which == "*" && f.def);
        if (gone && f.def->kind == Item::NONE)
            continue;
        sameItem(getAttr(*v, f.name), gone ? *f.def : f.value, "reports the value given, or its default: " + f.name);
    }
}
template <class T> void omitAny(Entity const &e)
{
    std::vector<std::string> names{"*"};
    for (auto const &f : e.fields)
        if (f.def)
            names.push_back(f.name);
    omitted<T>(e, names[vp_choose("omitted", names.size())]);
}
// Equal exactly when all values are.
template <class T> void equality(Entity const &a, Entity const &b)
{
    auto const v = tryMake<T>(a.kwargs()), w = tryMake<T>(b.kwargs());
    vp_check(v && w, "valid values are accepted");
    bool same = true;
    for (size_t i = 0; i != a.fields.size(); ++i)
    {
        auto const &x = a.fields[i].value, &y = b.fields[i].value;
        same = same & (x.kind == y.kind) & (x.num == y.num) & (x.dbl == y.dbl) & (x.str == y.str) & (x.list.size() == y.list.size());
        if (x.list.size() == y.list.size())
            for (size_t j = 0; j != x.list.size(); ++j)
                same = same & (x.list[j].num == y.list[j].num);
    }
    vp_check((*v == *w) == same, "equal exactly when all values are");
}

// ---- the entities; each returns whether its values are valid ---------------
bool location(Entity &e, char const *n)
{
    e.fields.push_back({"x", py::toPy<false>((double)sym("x" + e.suffix, -1000, 1000)), std::nullopt});
    e.fields.push_back({"y", py::toPy<false>((double)sym("y" + e.suffix, -1000, 1000)), std::nullopt});
    e.name(n);
    return true;
}
bool client(Entity &e, size_t dims, bool grouped, char const *n = "some name")
{
    e.idx("location");
    auto const d = e.amounts("delivery", dims), p = e.amounts("pickup", dims);
    auto const s = e.any("service_duration", 0), te = e.any("tw_early", 0), tl = e.any("tw_late", IMAX),
               r = e.any("release_time", 0), pr = e.any("prize", 0);
    e.flag("required", true);
    if (grouped)
    {
        e.idx("group");
        e.fields.back().def = none();
    }
    e.name(n);
    return allNonNeg(d) & allNonNeg(p) & (s >= 0) & (te >= 0) & (te <= tl) & (r >= 0) & (r <= tl) & (pr >= 0);
}
bool depot(Entity &e, char const *n = "some name")
{
    e.idx("location");
    auto const te = e.any("tw_early", 0), tl = e.any("tw_late", IMAX), s = e.any("service_duration", 0);
    e.name(n);
    return (s >= 0) & (te >= 0) & (te <= tl);
}
bool step(Entity &e)
{
    e.idx("location");
    auto const te = e.any("tw_early", 0), tl = e.any("tw_late", IMAX), s = e.any("service_duration", 0);
    return (s >= 0) & (te >= 0) & (te <= tl);
}
bool shipment(Entity &e, size_t dims, char const *n = "some name")
{
    e.idx("pickup_location");
    e.idx("delivery_location");
    auto const pe = e.any("pickup_tw_early", 0), pl = e.any("pickup_tw_late", IMAX),
               ps = e.any("pickup_service_duration", 0), de = e.any("delivery_tw_early", 0),
               dl = e.any("delivery_tw_late", IMAX), ds = e.any("delivery_service_duration", 0);
    auto const a = e.amounts("amount", dims);
    auto const pr = e.any("prize", 0);
    e.flag("required", true);
    e.name(n);
    return allNonNeg(a) & (pe >= 0) & (pe <= pl) & (ps >= 0) & (de >= 0) & (de <= dl) & (ds >= 0) & (pr >= 0) & (pe <= dl);
}
bool vehicle(Entity &e, size_t dims, size_t reloads, bool late, char const *n = "some name")
{
    auto const num = e.idx("num_available", 1);
    auto const c = e.amounts("capacity", dims);
    e.idx("start_depot", 0);
    e.idx("end_depot", 0);
    e.any("fixed_cost", 0, false);
    auto const te = e.any("tw_early", 0), tl = e.any("tw_late", IMAX), sd = e.any("shift_duration", IMAX),
               md = e.any("max_distance", IMAX), uc = e.any("unit_distance_cost", 1),
               ud = e.any("unit_duration_cost", 0);
    e.idx("profile", 0);
    bool ok = (num > 0) & allNonNeg(c) & (te >= 0) & (sd >= 0) & (md >= 0) & (uc >= 0) & (ud >= 0) & (te <= tl);
    if (late)
    {
        auto const sl = e.any("start_late");
        e.fields.back().def = none();
        ok = ok & (te <= sl) & (sl <= tl);
    }
    auto const init = e.amounts("initial_load", dims);
    e.amounts("reload_depots", reloads, true);
    e.idx("max_reloads");
    e.fields.back().def = py::toPy<false>(std::numeric_limits<size_t>::max());
    auto const mo = e.any("max_overtime", 0), uo = e.any("unit_overtime_cost", 0);
    e.name(n);
    for (size_t i = 0; i != dims; ++i)
        ok = ok & (init[i] >= 0) & (init[i] <= c[i]);
    return ok & (mo >= 0) & (uo >= 0);
}
// What a shipment reports about its steps.
void steps(Shipment const &s, Entity const &e)
{
    for (auto const &f : e.fields)
    {
        bool const p = f.name.substr(0, 7) == "pickup_", d = f.name.substr(0, 9) == "delivery_";
        if (p)
            sameItem(getAttr(getAttr(s, "pickup").cast<Shipment::Step>(), f.name.substr(7)), f.value, "reports " + f.name);
        else if (d)
            sameItem(getAttr(getAttr(s, "delivery").cast<Shipment::Step>(), f.name.substr(9)), f.value, "reports " + f.name);
        else
            sameItem(getAttr(s, f.name), f.value, "reports " + f.name);
    }
}
char const *other() { return vp_choose("named", 2) ? "some name" : "some names"; }
}  // namespace

extern "C" void h_ent_location()
{
    loadModule();
    Entity a, b;
    bool const ok = location(a, "some name");
    given<Location>(a, ok);
    b.suffix = "'";
    location(b, other());
    equality<Location>(a, b);
}
extern "C" void h_ent_client()
{
    loadModule();
    Entity e;
    bool const ok = client(e, vp_choose("dims", 3), vp_choose("grouped", 2));
    given<Client>(e, ok);
}
extern "C" void h_ent_client_omit()
{
    loadModule();
    Entity e;
    vp_assume(client(e, 0, true));
    omitAny<Client>(e);
}
// Amounts are padded with zeroes to the same size.
extern "C" void h_ent_client_pad()
{
    loadModule();
    size_t const d = vp_choose("deliveries", 3), p = vp_choose("pickups", 3);
    Entity e;
    e.idx("location");
    auto dv = e.amounts("delivery", d), pv = e.amounts("pickup", p);
    vp_assume(allNonNeg(dv) & allNonNeg(pv));
    auto const c = tryMake<Client>(e.kwargs());
    vp_check(c.has_value(), "accepted");
    dv.resize(std::max(d, p));
    pv.resize(std::max(d, p));
    sameItem(getAttr(*c, "delivery"), list(dv), "deliveries are padded with zeroes");
    sameItem(getAttr(*c, "pickup"), list(pv), "pickups are padded with zeroes");
}
extern "C" void h_ent_client_eq()
{
    loadModule();
    Entity a, b;
    b.suffix = "'";
    auto const dims = vp_choose("dims", 3);
    vp_assume(client(a, dims, true));
    vp_assume(client(b, dims, true, other()));
    equality<Client>(a, b);
}
extern "C" void h_ent_depot()
{
    loadModule();
    Entity e;
    bool const ok = depot(e);
    given<Depot>(e, ok);
}
extern "C" void h_ent_depot_omit()
{
    loadModule();
    Entity e;
    vp_assume(depot(e));
    omitAny<Depot>(e);
}
extern "C" void h_ent_depot_eq()
{
    loadModule();
    Entity a, b;
    b.suffix = "'";
    vp_assume(depot(a));
    vp_assume(depot(b, other()));
    equality<Depot>(a, b);
}
extern "C" void h_ent_step()
{
    loadModule();
    Entity a, b;
    b.suffix = "'";
    bool const ok = step(a);
    given<Shipment::Step>(a, ok);
    vp_assume(ok);
    vp_assume(step(b));
    equality<Shipment::Step>(a, b);
}
extern "C" void h_ent_shipment()
{
    loadModule();
    Entity e;
    bool const ok = shipment(e, vp_choose("dims", 3));
    auto const v = tryMake<Shipment>(e.kwargs());
    vp_check(v.has_value() == ok, "accepted exactly when the values are valid");
    if (!v)
    {
        vp_cover("rejected");
        return;
    }
    vp_cover("accepted");
    Shipment const copy(*v);
    Shipment moved(copy);
    Shipment const taken(std::move(moved));
    steps(*v, e);
    steps(copy, e);
    steps(taken, e);
}
extern "C" void h_ent_shipment_omit()
{
    loadModule();
    Entity e;
    vp_assume(shipment(e, 0));
    std::vector<std::string> names{"*"};
    for (auto const &f : e.fields)
        if (f.def)
            names.push_back(f.name);
    auto const which = names[vp_choose("omitted", names.size())];
    auto const v = tryMake<Shipment>(e.kwargs(which));
    vp_check(v.has_value(), "values may be omitted");
    for (auto &f : e.fields)
        if (f.name == which || (which == "*" && f.def))
            f.value = *f.def;
    steps(*v, e);
}
extern "C" void h_ent_shipment_eq()
{
    loadModule();
    Entity a, b;
    b.suffix = "'";
    vp_assume(shipment(a, 1));
    vp_assume(shipment(b, 1, other()));
    equality<Shipment>(a, b);
}
extern "C" void h_ent_group()
{
    loadModule();
    Entity e;
    auto const m = e.amounts("clients", vp_choose("members", 4), true);
    e.flag("required", true);
    e.name();
    bool ok = true;
    for (size_t i = 0; i < m.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            ok = ok & (m[i] != m[j]);
    given<ClientGroup>(e, ok);
    if (ok)
    {
        ClientGroup g(construct<ClientGroup>(e.kwargs()));
        int64_t const extra = sym("extra", 0, IMAX);
        bool isNew = true;
        for (auto x : m)
            isNew = isNew & (x != extra);
        bool added = true;
        try
        {
            g.addClient(extra);
        }
        catch (std::invalid_argument const &)
        {
            added = false;
        }
        vp_check(added == isNew, "a client can be added once");
        auto n = m;
        if (added)
            n.push_back(extra);
        sameItem(getAttr(g, "clients"), list(n), "the members are those given and added");
        vp_check(g.size() == n.size() && g.empty() == n.empty() && std::equal(g.begin(), g.end(), n.begin(), n.end()),
                 "the members are those given and added");
    }
}
extern "C" void h_ent_group_eq()
{
    loadModule();
    Entity a, b;
    b.suffix = "'";
    auto const x = a.amounts("clients", vp_choose("members", 3), true);
    a.flag("required", true);
    a.name();
    auto const y = b.amounts("clients", vp_choose("members'", 3), true);
    b.flag("required", true);
    b.name(other());
    for (auto const *m : {&x, &y})
        if (m->size() == 2)
            vp_assume((*m)[0] != (*m)[1]);
    equality<ClientGroup>(a, b);
}
extern "C" void h_ent_vehicle()
{
    loadModule();
    Entity e;
    bool const ok = vehicle(e, vp_choose("dims", 3), vp_choose("reloads", 3), true);
    given<VehicleType>(e, ok);
}
extern "C" void h_ent_vehicle_omit()
{
    loadModule();
    Entity e;
    vp_assume(vehicle(e, 0, 0, true));
    auto const &fs = e.fields;
    std::vector<std::string> names{"*"};
    for (auto const &f : fs)
        if (f.def)
            names.push_back(f.name);
    auto const which = names[vp_choose("omitted", names.size())];
    if (which == "num_available" || which == "*")
        vp_cover("default");
    omitted<VehicleType>(e, which);
    if (which == "start_late" || which == "*")
    {
        auto const v = construct<VehicleType>(e.kwargs(which));
        sameItem(getAttr(v, "start_late"), getAttr(v, "tw_late"), "the latest start defaults to the end of the window");
    }
}
extern "C" void h_ent_vehicle_derived()
{
    loadModule();
    Entity e;
    auto const n = vp_choose("reloads", 2);
    auto const r = e.amounts("reload_depots", n, true);
    auto const most = vp_choose("unlimited", 2) ? std::numeric_limits<size_t>::max() : (size_t)sym("most", 0, IMAX);
    e.fields.push_back({"max_reloads", py::toPy<false>(most), std::nullopt});
    auto const sd = e.any("shift_duration", IMAX), mo = e.any("max_overtime", 0);
    vp_assume(sd >= 0 && mo >= 0);
    auto const v = construct<VehicleType>(e.kwargs());
    auto const trips = getAttr(v, "max_trips").cast<size_t>();
    if (n == 0)
        vp_check(trips == 1, "a single trip without reload depots");
    else if (most == std::numeric_limits<size_t>::max())
        vp_check(trips == most, "no limit on the number of trips");
    else
        vp_check(trips == most + 1, "one trip more than reloads");
    int64_t const want = mo > IMAX - sd ? IMAX : sd + mo;
    vp_check(getAttr(v, "max_duration").cast<int64_t>() == want, "the maximum duration includes overtime");
}
extern "C" void h_ent_vehicle_pad()
{
    loadModule();
    size_t const d = vp_choose("capacities", 3), p = vp_choose("initial", 3);
    Entity e;
    auto c = e.amounts("capacity", d), l = e.amounts("initial_load", p);
    vp_assume(allNonNeg(c) & allNonNeg(l));
    auto const v = tryMake<VehicleType>(e.kwargs());
    c.resize(std::max(d, p));
    l.resize(std::max(d, p));
    bool ok = true;
    for (size_t i = 0; i != c.size(); ++i)
        ok = ok & (l[i] <= c[i]);
    vp_check(v.has_value() == ok, "the initial load must fit");
    if (!v)
        return;
    sameItem(getAttr(*v, "capacity"), list(c), "capacities are padded with zeroes");
    sameItem(getAttr(*v, "initial_load"), list(l), "initial loads are padded with zeroes");
}
extern "C" void h_ent_vehicle_eq()
{
    loadModule();
    Entity a, b;
    b.suffix = "'";
    vp_assume(vehicle(a, 1, 1, true));
    vp_assume(vehicle(b, 1, 1, true, other()));
    equality<VehicleType>(a, b);
}
extern "C" void h_ent_vehicle_replace()
{
    loadModule();
    Entity a, b;
    b.suffix = "'";
    vp_assume(vehicle(a, 1, 1, true));
    vehicle(b, 1, 2, true, "other name");
    auto const v = construct<VehicleType>(a.kwargs());
    auto const n = a.fields.size();
    // Any one or two fields, none, or all.
    size_t const i = vp_choose("replaced", n + 2);
    size_t const j = i < n ? vp_choose("also", n) : n;
    Entity want;
    Kwargs kw;
    for (size_t k = 0; k != n; ++k)
    {
        bool const r = k == i || k == j || i == n + 1;
        want.fields.push_back(r ? b.fields[k] : a.fields[k]);
        if (r)
            kw.emplace_back(b.fields[k].name, b.fields[k].value);
    }
    std::optional<VehicleType> w;
    try
    {
        w.emplace(callMethod(v, "replace", kw).cast<VehicleType>());
    }
    catch (std::invalid_argument const &)
    {
    }
    auto const direct = tryMake<VehicleType>(want.kwargs());
    vp_check(w.has_value() == direct.has_value(), "replacing is refused exactly when such values are");
    for (auto const &f : a.fields)
        sameItem(getAttr(v, f.name), f.value, "the original is left alone: " + f.name);
    if (!w)
        return;
    for (auto const &f : want.fields)
        sameItem(getAttr(*w, f.name), f.value, "only the given values are replaced: " + f.name);
    vp_check(*w == *direct, "replacing equals constructing anew");
}
