// A model of the part of pybind11 that the bindings use. Values that cross the
// language boundary become Items (a small model of Python values), and the
// bindings register their constructors, attributes, methods and pickling
// functions in a registry, from which the harness calls them as Python would.
#pragma once
#include "Measure.h"

#include <array>
#include <cstdint>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define PYBIND11_MODULE(name, m) void vp_module_##name(pybind11::module_ &m)

namespace pybind11
{
struct cast_error : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
struct index_error : std::runtime_error
{
    explicit index_error(char const *m = "") : std::runtime_error(m) {}
};
struct value_error : std::runtime_error
{
    explicit value_error(char const *m = "") : std::runtime_error(m) {}
};

struct Item
{
    enum Kind
    {
        MISSING,
        NONE,
        INT,  // also bool
        FLOAT,
        STR,
        LIST,
        OBJ,
    } kind = NONE;
    int64_t num = 0;   // INT; a value above the int64_t range is marked big
    bool big = false;
    double dbl = 0;
    std::string str;
    std::vector<Item> list;      // LIST, or the state of a pickled OBJ
    void const *type = nullptr;  // OBJ
    std::shared_ptr<void> obj;   // OBJ, not pickled

    template <class T> T cast() const;
};

template <class T> struct TypeTag
{
    static inline char tag = 0;
};

struct list
{
};
struct dict
{
};
struct none
{
};
struct object
{
};

struct tuple
{
    std::vector<Item> items;
    Item const &operator[](size_t i) const
    {
        if (i >= items.size())
            throw index_error("tuple index out of range");
        return items[i];
    }
    size_t size() const { return items.size(); }
};

// Functions registered per class.
template <class T> struct Pickle
{
    static inline tuple (*get)(T const &) = nullptr;
    static inline T (*set)(tuple) = nullptr;
};

template <class T> struct Known : std::false_type  // classes the harness uses
{
};

template <class T> struct is_measure : std::false_type
{
};
template <pyvrp::MeasureType M, class V> struct is_measure<pyvrp::Measure<M, V>> : std::true_type
{
    using type = V;
};
template <class T> struct is_vector : std::false_type
{
};
template <class V> struct is_vector<std::vector<V>> : std::true_type
{
    using type = V;
};
template <class T> struct is_optional : std::false_type
{
};
template <class V> struct is_optional<std::optional<V>> : std::true_type
{
    using type = V;
};
template <class T> struct is_pair : std::false_type
{
};
template <class A, class B> struct is_pair<std::pair<A, B>> : std::true_type
{
    using first = A;
    using second = B;
};
template <class T> constexpr bool convertible()
{
    if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T> || is_measure<T>::value || std::is_same_v<T, std::string>
                  || std::is_same_v<T, char const *> || std::is_same_v<T, none> || std::is_same_v<T, list>)
        return true;
    else if constexpr (is_vector<T>::value)
        return convertible<typename is_vector<T>::type>();
    else if constexpr (is_optional<T>::value)
        return convertible<typename is_optional<T>::type>();
    else if constexpr (is_pair<T>::value)
        return convertible<typename is_pair<T>::first>() && convertible<typename is_pair<T>::second>();
    else
        return Known<T>::value;
}

// C++ to Python. Pickled: objects are replaced by their pickled state.
template <bool pickled, class T> Item toPy(T const &v)
{
    Item r;
    if constexpr (std::is_same_v<T, none>)
        r.kind = Item::NONE;
    else if constexpr (std::is_same_v<T, list>)
        r.kind = Item::LIST;
    else if constexpr (is_measure<T>::value)
        return toPy<pickled>(v.get());
    else if constexpr (std::is_enum_v<T>)
        r.kind = Item::INT, r.num = static_cast<int64_t>(v);
    else if constexpr (std::is_floating_point_v<T>)
        r.kind = Item::FLOAT, r.dbl = v;
    else if constexpr (std::is_integral_v<T>)
    {
        r.kind = Item::INT;
        r.num = static_cast<int64_t>(v);
        if constexpr (std::is_unsigned_v<T> && sizeof(T) == 8)
            r.big = r.num < 0;
    }
    else if constexpr (std::is_same_v<T, std::string>)
        r.kind = Item::STR, r.str = v;
    else if constexpr (std::is_convertible_v<T, char const *>)
        r.kind = Item::STR, r.str = static_cast<char const *>(v);
    else if constexpr (is_optional<T>::value)
    {
        if (v)
            return toPy<pickled>(*v);
        r.kind = Item::NONE;
    }
    else if constexpr (is_pair<T>::value)
    {
        r.kind = Item::LIST;
        r.list.push_back(toPy<pickled>(v.first));
        r.list.push_back(toPy<pickled>(v.second));
    }
    else if constexpr (is_vector<T>::value)
    {
        r.kind = Item::LIST;
        for (size_t i = 0; i != v.size(); ++i)
            r.list.push_back(toPy<pickled>(static_cast<typename is_vector<T>::type>(v[i])));
    }
    else
    {
        r.kind = Item::OBJ;
        r.type = &TypeTag<T>::tag;
        if constexpr (pickled)
        {
            if (!Pickle<T>::get)
                throw cast_error("cannot pickle object");
            r.list = Pickle<T>::get(v).items;
        }
        else
            r.obj = std::shared_ptr<void>(new T(v), [](void *p) { delete static_cast<T *>(p); });
    }
    return r;
}

// Python to C++.
template <class T> T fromPy(Item const &v)
{
    if constexpr (is_measure<T>::value)
        return T(fromPy<typename is_measure<T>::type>(v));
    else if constexpr (std::is_enum_v<T>)
        return static_cast<T>(fromPy<int64_t>(v));
    else if constexpr (std::is_floating_point_v<T>)
    {
        if (v.kind == Item::FLOAT)
            return v.dbl;
        if (v.kind == Item::INT)
            return static_cast<double>(v.num);
        throw cast_error("expected a float");
    }
    else if constexpr (std::is_same_v<T, bool>)
    {
        if (v.kind != Item::INT)
            throw cast_error("expected a bool");
        return v.num != 0;
    }
    else if constexpr (std::is_integral_v<T>)
    {
        if (v.kind != Item::INT)
            throw cast_error("expected an int");
        if constexpr (std::is_unsigned_v<T> && sizeof(T) == 8)
        {
            if (v.num < 0 && !v.big)
                throw cast_error("negative");
        }
        else if (v.big || v.num != static_cast<int64_t>(static_cast<T>(v.num)))
            throw cast_error("overflow");
        return static_cast<T>(v.num);
    }
    else if constexpr (std::is_same_v<T, std::string>)
    {
        if (v.kind != Item::STR)
            throw cast_error("expected a str");
        return v.str;
    }
    else if constexpr (std::is_same_v<T, char const *>)
    {
        if (v.kind != Item::STR)
            throw cast_error("expected a str");
        return v.str.c_str();
    }
    else if constexpr (is_optional<T>::value)
    {
        if (v.kind == Item::NONE)
            return std::nullopt;
        return fromPy<typename is_optional<T>::type>(v);
    }
    else if constexpr (is_pair<T>::value)
    {
        if (v.kind != Item::LIST || v.list.size() != 2)
            throw cast_error("expected a pair");
        return T(fromPy<typename is_pair<T>::first>(v.list[0]), fromPy<typename is_pair<T>::second>(v.list[1]));
    }
    else if constexpr (is_vector<T>::value)
    {
        if (v.kind != Item::LIST)
            throw cast_error("expected a list");
        T r;
        for (auto const &x : v.list)
            r.push_back(fromPy<typename is_vector<T>::type>(x));
        return r;
    }
    else
    {
        if (v.kind != Item::OBJ || v.type != &TypeTag<T>::tag)
            throw cast_error("unexpected type");
        if (v.obj)
            return *static_cast<T const *>(v.obj.get());
        if (!Pickle<T>::set)
            throw cast_error("cannot unpickle object");
        return Pickle<T>::set(tuple{v.list});
    }
}
template <class T> T Item::cast() const { return fromPy<T>(*this); }

template <class... Args> tuple make_tuple(Args const &...args)
{
    tuple t;
    (t.items.push_back(toPy<true>(args)), ...);
    return t;
}

// ---- what a definition may carry ------------------------------------------
struct arg
{
    char const *name;
    Item def;
    explicit arg(char const *n) : name(n) { def.kind = Item::MISSING; }
    arg &noconvert(bool = true) { return *this; }
    arg &none(bool = true) { return *this; }
    template <class V> arg operator=(V const &v) const
    {
        arg r = *this;
        if constexpr (std::is_convertible_v<V, char const *> || convertible<std::decay_t<V>>())
            r.def = toPy<false>(v);
        return r;
    }
};
struct kw_only
{
};
enum class return_value_policy
{
    automatic,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal
};
template <int, int> struct keep_alive
{
};
template <class... T> struct call_guard
{
};
struct gil_scoped_release
{
};
struct gil_scoped_acquire
{
};
struct is_operator
{
};
struct dynamic_attr
{
};
struct options
{
    options &disable_enum_members_docstring() { return *this; }
    options &disable_function_signatures() { return *this; }
    options &disable_user_defined_docstrings() { return *this; }
};
struct self_t
{
    struct eq
    {
    };
    struct ne
    {
    };
    friend eq operator==(self_t, self_t) { return {}; }
    friend ne operator!=(self_t, self_t) { return {}; }
};
inline constexpr self_t self{};
template <class... A> struct init_t
{
};
template <class... A> init_t<A...> init() { return {}; }
template <class F> struct init_fn
{
    F f;
};
template <class F> init_fn<F> init(F f) { return {f}; }
template <class G, class S> struct pickle_t
{
    G get;
    S set;
};
template <class G, class S> pickle_t<G, S> pickle(G g, S s) { return {g, s}; }
template <class... A> struct overload_t
{
    template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template <class... A> inline constexpr overload_t<A...> overload_cast{};
inline constexpr std::true_type const_{};
template <class I, class E> none make_iterator(I, E) { return {}; }
struct cpp_function
{
    template <class... A> explicit cpp_function(A &&...) {}
};

// ---- the registry ----------------------------------------------------------
struct Param
{
    std::string name;
    Item def;
};
template <class T> struct Func
{
    std::string name;
    std::vector<Param> params;
    void (*slot)() = nullptr;  // the bound function, type-erased
    Item (*call)(void const *fn, T const &self, std::vector<Item> const &args) = nullptr;
    std::shared_ptr<void> fn;
    size_t arity = 0;
};
template <class T> struct Ctor
{
    std::vector<Param> params;
    size_t arity = 0;
    T (*make)(std::vector<Item> const &args) = nullptr;
};
template <class T> struct Registry
{
    static inline std::vector<Ctor<T>> ctors;
    static inline std::vector<Func<T>> attrs;    // attributes
    static inline std::vector<Func<T>> methods;  // methods
};

namespace detail
{
inline void params(std::vector<Param> &) {}
template <class E, class... R> void params(std::vector<Param> &ps, E const &e, R const &...r)
{
    if constexpr (std::is_same_v<std::decay_t<E>, arg>)
        ps.push_back({e.name, e.def});
    params(ps, r...);
}
template <class A> using plain = std::remove_cv_t<std::remove_reference_t<A>>;

template <class T, class F, class R, class... A> struct Invoke
{
    template <size_t... I> static Item go(F const &f, T const &self, std::vector<Item> const &args, std::index_sequence<I...>)
    {
        std::tuple<plain<A>...> held{fromPy<plain<A>>(args[I])...};
        return toPy<false>(static_cast<plain<R>>(std::invoke(f, self, static_cast<A>(std::get<I>(held))...)));
    }
    static Item call(void const *fn, T const &self, std::vector<Item> const &args)
    {
        return go(*static_cast<F const *>(fn), self, args, std::index_sequence_for<A...>{});
    }
};
template <class T, class F, class R, class... A, class... E>
void reg(std::vector<Func<T>> &where, char const *name, F f, E const &...extra)
{
    if constexpr (Known<T>::value && convertible<plain<R>>() && (convertible<plain<A>>() && ...))
    {
        Func<T> fn;
        fn.name = name;
        params(fn.params, extra...);
        fn.arity = sizeof...(A);
        fn.fn = std::make_shared<F>(f);
        fn.call = &Invoke<T, F, R, A...>::call;
        where.push_back(std::move(fn));
    }
}
// Only functions that leave the object alone are registered.
template <class T, class R, class C, class... A, class... E>
void bind(std::vector<Func<T>> &w, char const *n, R (C::*f)(A...) const, E const &...e)
{
    reg<T, decltype(f), R, A...>(w, n, f, e...);
}
template <class T, class R, class C, class... A, class... E>
void bind(std::vector<Func<T>> &w, char const *n, R (C::*f)(A...) const noexcept, E const &...e)
{
    reg<T, decltype(f), R, A...>(w, n, f, e...);
}
template <class T, class R, class... A, class... E>
void bind(std::vector<Func<T>> &w, char const *n, R (*f)(T const &, A...), E const &...e)
{
    reg<T, decltype(f), R, A...>(w, n, f, e...);
}
template <class T, class F, class R, class... A, class... E>
void lambda(std::vector<Func<T>> &w, char const *n, F f, R (F::*)(T const &, A...) const, E const &...e)
{
    reg<T, F, R, A...>(w, n, f, e...);
}
template <class T, class... X> void lambda(X const &...) {}
template <class T, class F, class... E> void bind(std::vector<Func<T>> &w, char const *n, F const &f, E const &...e)
{
    if constexpr (requires { &F::operator(); })
        lambda<T>(w, n, f, &F::operator(), e...);
}
template <class T, class... A> struct Make
{
    template <size_t... I> static T go(std::vector<Item> const &args, std::index_sequence<I...>)
    {
        std::tuple<plain<A>...> held{fromPy<plain<A>>(args[I])...};
        return T(static_cast<A>(std::get<I>(held))...);
    }
    static T make(std::vector<Item> const &args) { return go(args, std::index_sequence_for<A...>{}); }
};
// A factory function instead of a constructor.
template <class T, class F> struct MakeFn
{
    static inline F const *f = nullptr;
    template <class... A, size_t... I> static T go(std::vector<Item> const &args, std::index_sequence<I...>)
    {
        std::tuple<plain<A>...> held{fromPy<plain<A>>(args[I])...};
        if constexpr (std::is_same_v<plain<decltype((*f)(std::declval<A>()...))>, T>)
            return (*f)(static_cast<A>(std::get<I>(held))...);
        else
            return T(*(*f)(static_cast<A>(std::get<I>(held))...));
    }
    template <class... A> static T make(std::vector<Item> const &args)
    {
        return go<A...>(args, std::index_sequence_for<A...>{});
    }
    template <class R, class... A, class... E> static void reg(R (F::*)(A...) const, E const &...e)
    {
        if constexpr (Known<T>::value && (convertible<plain<A>>() && ...))
        {
            Ctor<T> c;
            c.arity = sizeof...(A);
            params(c.params, e...);
            c.make = &make<A...>;
            Registry<T>::ctors.push_back(std::move(c));
        }
    }
};
template <class T, class G, class S> struct Tramp
{
    static inline G const *g = nullptr;
    static inline S const *s = nullptr;
    static tuple get(T const &v) { return (*g)(v); }
    static T set(tuple t) { return (*s)(t); }
};
}  // namespace detail

struct module_
{
    struct attr_t
    {
        template <class V> attr_t &operator=(V const &) { return *this; }
    };
    attr_t attr(char const *) { return {}; }
    template <class... A> module_ &def(A const &...) { return *this; }
    module_ def_submodule(char const *, char const * = "") { return {}; }
};
template <class E> struct enum_
{
    template <class... A> enum_(A &&...) {}
    template <class... A> enum_ &value(A const &...) { return *this; }
    enum_ &export_values() { return *this; }
};

template <class T, class... Bases> struct class_
{
    template <class... A> class_(A &&...) {}

    template <class... A, class... E> class_ &def(init_t<A...>, E const &...e)
    {
        if constexpr (Known<T>::value && (convertible<detail::plain<A>>() && ...)
                      && std::is_constructible_v<T, detail::plain<A>...>)
        {
            Ctor<T> c;
            c.arity = sizeof...(A);
            detail::params(c.params, e...);
            c.make = &detail::Make<T, A...>::make;
            Registry<T>::ctors.push_back(std::move(c));
        }
        return *this;
    }
    template <class F, class... E> class_ &def(init_fn<F> i, E const &...e)
    {
        if constexpr (requires { &F::operator(); })
        {
            detail::MakeFn<T, F>::f = new F(i.f);
            detail::MakeFn<T, F>::reg(&F::operator(), e...);
        }
        return *this;
    }
    template <class G, class S, class... E> class_ &def(pickle_t<G, S> p, E const &...)
    {
        using TR = detail::Tramp<T, G, S>;
        TR::g = new G(p.get);
        TR::s = new S(p.set);
        Pickle<T>::get = &TR::get;
        Pickle<T>::set = &TR::set;
        return *this;
    }
    template <class... E> class_ &def(self_t::eq, E const &...) { return *this; }
    template <class... E> class_ &def(self_t::ne, E const &...) { return *this; }
    template <class F, class... E> class_ &def(char const *name, F const &f, E const &...e)
    {
        detail::bind<T>(Registry<T>::methods, name, f, e...);
        return *this;
    }
    template <class F, class... E> class_ &def_property_readonly(char const *name, F const &f, E const &...e)
    {
        detail::bind<T>(Registry<T>::attrs, name, f, e...);
        return *this;
    }
    template <class M, class C, class... E> class_ &def_readonly(char const *name, M C::*p, E const &...e)
    {
        auto get = [p](T const &v) -> M const & { return v.*p; };
        detail::reg<T, decltype(get), M const &>(Registry<T>::attrs, name, get, e...);
        return *this;
    }
    template <class... A> class_ &def_readwrite(A const &...) { return *this; }
    template <class... A> class_ &def_static(A const &...) { return *this; }
    template <class... A> class_ &def_property(A const &...) { return *this; }
    template <class... A> class_ &def_property_readonly_static(A const &...) { return *this; }
    template <class... A> class_ &def_readonly_static(A const &...) { return *this; }
};
}  // namespace pybind11
namespace py = pybind11;
