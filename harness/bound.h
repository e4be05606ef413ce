// The real bindings, compiled against the model of pybind11 in mock/.
#pragma once
#include "Activity.h"
#include "Client.h"
#include "ClientGroup.h"
#include "Depot.h"
#include "DurationSegment.h"
#include "DynamicBitset.h"
#include "LoadSegment.h"
#include "Location.h"
#include "Matrix.h"
#include "PiecewiseLinearFunction.h"
#include "ProblemData.h"
#include "RandomNumberGenerator.h"
#include "Route.h"
#include "Shipment.h"
#include "Solution.h"
#include "VehicleType.h"
#include <functional>
#include <pybind11/pybind11.h>

using PLF = pyvrp::PiecewiseLinearFunction<int64_t, int64_t>;

namespace pybind11
{
#define KNOWN(T)                                                                                                       \
    template <> struct Known<T> : std::true_type                                                                       \
    {                                                                                                                  \
    };
KNOWN(pyvrp::Activity)
KNOWN(pyvrp::Client)
KNOWN(pyvrp::ClientGroup)
KNOWN(pyvrp::Depot)
KNOWN(pyvrp::DynamicBitset)
KNOWN(pyvrp::Location)
KNOWN(PLF)
KNOWN(pyvrp::ProblemData)
KNOWN(pyvrp::Route)
KNOWN(pyvrp::Route::ScheduledActivity)
KNOWN(pyvrp::Shipment)
KNOWN(pyvrp::Shipment::Step)
KNOWN(pyvrp::Solution)
KNOWN(pyvrp::VehicleType)
#undef KNOWN
template <class V> struct Known<pyvrp::Matrix<V>> : std::true_type
{
};
// Matrices become arrays: their dimensions and elements.
template <class V> struct MatrixPickle
{
    static tuple get(pyvrp::Matrix<V> const &m)
    {
        tuple t;
        t.items.push_back(toPy<true>(m.numRows()));
        t.items.push_back(toPy<true>(m.numCols()));
        for (size_t i = 0; i != m.size(); ++i)
            t.items.push_back(toPy<true>(m.data()[i]));
        return t;
    }
    static pyvrp::Matrix<V> set(tuple t)
    {
        std::vector<V> data;
        for (size_t i = 2; i < t.size(); ++i)
            data.push_back(t[i].template cast<V>());
        return pyvrp::Matrix<V>(std::move(data), t[0].template cast<size_t>(), t[1].template cast<size_t>());
    }
};
}  // namespace pybind11

#define PYVRP_BINDINGS_H  // the type casters are modelled as well
namespace pyvrp
{
inline void registerLogger(std::string const &) {}
}
#include "bindings.cpp"

#include "inst.h"

inline void loadModule()
{
    py::Pickle<Matrix<Distance>>::get = &py::MatrixPickle<Distance>::get;
    py::Pickle<Matrix<Distance>>::set = &py::MatrixPickle<Distance>::set;
    py::Pickle<Matrix<Duration>>::get = &py::MatrixPickle<Duration>::get;
    py::Pickle<Matrix<Duration>>::set = &py::MatrixPickle<Duration>::set;
    py::module_ m;
    vp_module__pyvrp(m);
}

// Whether two values are the same to a user: compared figure by figure.
template <class T> void sameObject(T const &a, T const &b, std::string const &what);
template <class T> bool tryObject(py::Item const &a, py::Item const &b, std::string const &what)
{
    if (a.type != &py::TypeTag<T>::tag)
        return false;
    sameObject<T>(a.cast<T>(), b.cast<T>(), what);
    return true;
}
inline void sameItem(py::Item const &a, py::Item const &b, std::string const &what)
{
    char const *msg = what.c_str();
    vp_check(a.kind == b.kind && a.type == b.type, msg);
    switch (a.kind)
    {
    case py::Item::INT:
        vp_check(a.num == b.num && a.big == b.big, msg);
        break;
    case py::Item::FLOAT:
        vp_check(a.dbl == b.dbl, msg);
        break;
    case py::Item::STR:
        vp_check(a.str == b.str, msg);
        break;
    case py::Item::LIST:
        vp_check(a.list.size() == b.list.size(), msg);
        for (size_t i = 0; i != a.list.size(); ++i)
            sameItem(a.list[i], b.list[i], what);
        break;
    case py::Item::OBJ:
        tryObject<Activity>(a, b, what) || tryObject<Client>(a, b, what) || tryObject<ClientGroup>(a, b, what)
            || tryObject<Depot>(a, b, what) || tryObject<Location>(a, b, what) || tryObject<Route>(a, b, what)
            || tryObject<Route::ScheduledActivity>(a, b, what) || tryObject<Shipment>(a, b, what)
            || tryObject<Shipment::Step>(a, b, what) || tryObject<VehicleType>(a, b, what)
            || tryObject<Matrix<Distance>>(a, b, what) || tryObject<Matrix<Duration>>(a, b, what)
            || (vp_beyond("unknown type of value"), true);
        break;
    default:
        break;
    }
}
inline bool visible(std::string const &name) { return name.substr(0, 2) != "__" || name == "__len__"; }
template <class T> void sameObject(T const &a, T const &b, std::string const &what)
{
    if constexpr (requires { a.numRows(); })
    {
        vp_check(a.numRows() == b.numRows() && a.numCols() == b.numCols(), what.c_str());
        for (size_t i = 0; i != a.size(); ++i)
            vp_check(a.data()[i] == b.data()[i], what.c_str());
    }
    else
    {
        if constexpr (std::is_same_v<T, Route::ScheduledActivity>)
            sameObject<Activity>(a, b, what);
        for (auto const *fs : {&py::Registry<T>::attrs, &py::Registry<T>::methods})
            for (auto const &f : *fs)
                if (f.arity == 0 && visible(f.name))
                    sameItem(f.call(f.fn.get(), a, {}), f.call(f.fn.get(), b, {}), what + ": " + f.name);
    }
}

// Calls a constructor or method with keyword arguments, as Python would.
using Kwargs = std::vector<std::pair<std::string, py::Item>>;
template <class C> bool arguments(C const &f, Kwargs const &kw, std::vector<py::Item> &args)
{
    if (f.params.size() != f.arity)
        return false;
    size_t used = 0;
    for (auto const &p : f.params)
    {
        py::Item v = p.def;
        for (auto const &[n, x] : kw)
            if (n == p.name)
                v = x, used++;
        if (v.kind == py::Item::MISSING)
            return false;
        args.push_back(v);
    }
    return used == kw.size();
}
template <class T> T construct(Kwargs const &kw)
{
    for (auto const &c : py::Registry<T>::ctors)
    {
        std::vector<py::Item> args;
        if (arguments(c, kw, args))
            return c.make(args);
    }
    vp_beyond("there is no such constructor");
}
template <class T> py::Item callMethod(T const &self, char const *name, Kwargs const &kw = {})
{
    for (auto const &f : py::Registry<T>::methods)
    {
        std::vector<py::Item> args;
        if (f.name == name && arguments(f, kw, args))
            return f.call(f.fn.get(), self, args);
    }
    vp_beyond("there is no such method");
}
template <class T> py::Item getAttr(T const &self, std::string const &name)
{
    for (auto const &f : py::Registry<T>::attrs)
        if (f.name == name && f.arity == 0)
            return f.call(f.fn.get(), self, {});
    vp_beyond("there is no such attribute");
}
template <class T> T pickled(T const &v)
{
    vp_check(py::Pickle<T>::get && py::Pickle<T>::set, "the class can be pickled");
    py::tuple t = py::Pickle<T>::get(v);
    return py::Pickle<T>::set(t);
}
