#pragma once
#include "payload.hpp"
#include <map>
#include <set>
#include <deque>
#include <unordered_map>
#include <variant>
#include <array>
#include <string_view>
#include <tuple>
struct MO {
    int v = 0;
    MO() = default;
    MO(MO&&) = default;
    MO& operator=(MO&&) = default;
    bool operator<(const MO& o) const { return v < o.v; }
};
// a view: its elements do not depend on its own constness or category
template<class T> struct Proxy {
    T* p = nullptr;
    std::size_t size() const { return p != nullptr; }
    T& operator[](std::size_t) const { return *p; }
    T& front() const { return *p; }
    T& back() const { return *p; }
};
// what they give depends on the category: references of all kinds, or values of rvalues
#define SPLIT(NAME, X) X& NAME & { throw 0; } const X& NAME const& { throw 0; }
template<class T> struct Split {
    std::size_t size() const { return 0; }
    SPLIT(operator[](std::size_t), T) SPLIT(front(), T) SPLIT(back(), T)
    T&& operator[](std::size_t) && { throw 0; } const T&& operator[](std::size_t) const&& { throw 0; }
    T&& front() && { throw 0; } const T&& front() const&& { throw 0; }
    T&& back() && { throw 0; } const T&& back() const&& { throw 0; }
};
template<class T> struct Gives {
    std::size_t size() const { return 0; }
    SPLIT(operator[](std::size_t), T) SPLIT(front(), T) SPLIT(back(), T)
    T operator[](std::size_t) && { throw 0; } T operator[](std::size_t) const&& { throw 0; }
    T front() && { throw 0; } T front() const&& { throw 0; }
    T back() && { throw 0; } T back() const&& { throw 0; }
};
template<class T> T dv() noexcept { throw 0; }
template<class...> struct id { int x = 0; };
template<class T> struct Ret {
    template<class... A> constexpr T operator()(A&&...) const { throw 0; }
};
struct ArgId {
    template<class... A> id<A&&...> operator()(A&&...) const { return {}; }
};
struct ArgOpt {
    template<class... A> opt::option<id<A&&...>> operator()(A&&...) const { return {}; }
};
struct Yes {
    template<class A> bool operator()(A&&) const { return true; }
};
template<class A, class B> inline constexpr bool is = std::is_same_v<A, B>;

// the argument of a callback, observed in a real call
template<class W> struct Gets {
    int* r;
    template<class A> bool operator()(A&&) const { *r = std::is_same_v<A&&, W> ? 1 : 2; return true; }
};
template<class W> struct GetsInt {
    int* r;
    template<class A> int operator()(A&&) const { *r = std::is_same_v<A&&, W> ? 1 : 2; return 7; }
};
class O;
template<class Opt, class Cat> struct as;
template<class Opt> struct as<Opt, O&> { using type = Opt&; };
template<class Opt> struct as<Opt, const O&> { using type = const Opt&; };
template<class Opt> struct as<Opt, O&&> { using type = Opt&&; };
template<class Opt> struct as<Opt, const O&&> { using type = const Opt&&; };
template<class Opt, class B, class Cat, class F> int cb(F f) {
    B obj{};
    using V = typename Opt::value_type;
    if constexpr (std::is_reference_v<V>) {
        Opt o{static_cast<V>(obj)};
        return f(static_cast<typename as<Opt, Cat>::type>(o));
    } else {
        Opt o{std::in_place, obj};
        return f(static_cast<typename as<Opt, Cat>::type>(o));
    }
}
#define CB(NAME, ...) \
    template<class Opt, class B, class Cat, class W> int cb_##NAME() { \
        return cb<Opt, B, Cat>([](auto&& o) { \
            int r = 0; \
            using Self = decltype(o); \
            (void) (__VA_ARGS__); \
            return r; \
        }); \
    }
CB(has_value_and, static_cast<Self>(o).has_value_and(Gets<W>{&r}))
CB(inspect, static_cast<Self>(o).inspect(Gets<W>{&r}))
CB(filter, static_cast<Self>(o).filter(Gets<W>{&r}))
CB(take_if, static_cast<Self>(o).take_if(Gets<W>{&r}))
CB(map_or, static_cast<Self>(o).map_or(3, GetsInt<W>{&r}))
