#pragma once
#include "categories.hpp"
#include <functional>
#include <memory>
#define FW(x) static_cast<decltype(x)>(x)
// what ran last: written by every function below
inline int ran = 0;
inline int runs = 0;
inline int note(int k) { ran = k; runs++; return k; }
struct First { int pad[3]; virtual ~First() = default; virtual int w() { return 1; } };
using OI = opt::option<int>;
// an argument that counts what is done to it
struct Arg {
    int v = 0, c = 0, m = 0;
    Arg() = default;
    explicit Arg(int n) : v(n) {}
    Arg(const Arg& o) : v(o.v), c(o.c + 1), m(o.m) {}
    Arg(Arg&& o) noexcept : v(o.v), c(o.c), m(o.m + 1) { o.v = -1; }
    Arg& operator=(const Arg&) = default;
};
#define QUALS(X) X(0, , ) X(1, const, ) X(2, &, ) X(3, const&, ) X(4, &&, ) X(5, const&&, ) X(6, noexcept, ) X(7, const noexcept, ) X(8, && noexcept, )
struct Hm {
    int m = 5;
    const int cm = 6;
    std::string s = "s";
    bool t = true, f = false;
    OI o{7}, e;
    Hm() = default;
    Hm(const Hm& h) : m(h.m), s(h.s) {}
    Hm& operator=(const Hm& h) { m = h.m; s = h.s; return *this; }
    virtual ~Hm() = default;
    virtual int v() const { return note(60); }
#define X(N, Q, _) \
    int i##N() Q { note(10 + N); return m + N; } \
    bool t##N() Q { note(10 + N); return true; } \
    bool f##N() Q { note(10 + N); return false; } \
    OI o##N() Q { note(10 + N); return OI{m + N}; } \
    OI e##N() Q { note(10 + N); return OI{}; } \
    int a##N(Arg x) Q { note(10 + N); return x.c * 100 + x.m * 10 + N; } \
    int r##N(Arg& x, const Arg& y) Q { note(10 + N); x.v = 40; return y.v; } \
    int z##N(Arg&& x) Q { note(10 + N); return x.c * 100 + x.m * 10 + N; } \
    void n##N() Q { note(10 + N); } \
    Hm& s##N() Q { note(10 + N); return const_cast<Hm&>(*this); }
    QUALS(X)
#undef X
};
struct Dm : First, Hm {
    int v() const override { return note(61); }
};
// points to an object of its own category, as options do
struct Own {
    Hm h;
    Hm& operator*() & { return h; }
    const Hm& operator*() const& { return h; }
    Hm&& operator*() && { return static_cast<Hm&&>(h); }
    const Hm&& operator*() const&& { return static_cast<const Hm&&>(h); }
};
template<int N> struct Sub;
#define SUB(N, T, X_, INIT, H_) template<> struct Sub<N> { using type = T; X_ x; opt::option<type> o{INIT}; Hm& h() { return const_cast<Hm&>(static_cast<const Hm&>(H_)); } };
SUB(0, Hm, int, std::in_place, *o)
SUB(1, const Hm, int, std::in_place, *o)
SUB(2, Hm&, Hm, x, x)
SUB(3, const Hm&, Hm, x, x)
SUB(4, Hm&&, Hm, static_cast<Hm&&>(x), x)
SUB(5, Dm, int, std::in_place, *o)
SUB(6, Dm&, Dm, x, x)
SUB(7, Hm*, Hm, &x, x)
SUB(8, const Hm*, Hm, &x, x)
SUB(9, Dm*, Dm, &x, x)
SUB(10, std::unique_ptr<Hm>, int, std::make_unique<Hm>(), **o)
SUB(11, std::shared_ptr<Hm>, int, std::make_shared<Hm>(), **o)
SUB(12, Own, int, std::in_place, **o)
SUB(13, opt::option<Hm>, int, opt::option<Hm>{std::in_place}, **o)
SUB(14, std::reference_wrapper<Hm>, Hm, std::ref(x), x)
SUB(15, std::reference_wrapper<const Hm>, Hm, std::cref(x), x)
SUB(16, std::reference_wrapper<Dm>, Dm, std::ref(x), x)
SUB(17, Hm* const, Hm, &x, x)
SUB(18, std::unique_ptr<const Hm>, int, std::make_unique<const Hm>(), **o)
SUB(19, const Dm, int, std::in_place, *o)
SUB(20, const Hm&&, Hm, static_cast<const Hm&&>(x), x)
struct PU { std::unique_ptr<Dm> p = std::make_unique<Dm>(); };
SUB(21, std::unique_ptr<Dm>&, PU, x.p, *x.p)
SUB(22, std::reference_wrapper<Hm>&, struct { Hm h; std::reference_wrapper<Hm> r{h}; }, x.r, x.h)
SUB(23, const opt::option<Hm>, int, opt::option<Hm>{std::in_place}, **o)
template<> struct Sub<24> { using type = OI; opt::option<OI> o{OI{3}}; Hm& h() { throw 0; } };

template<class C> struct ascat;
template<> struct ascat<O&> { template<class T> static T& f(T& x) { return x; } };
template<> struct ascat<const O&> { template<class T> static const T& f(T& x) { return x; } };
template<> struct ascat<O&&> { template<class T> static T&& f(T& x) { return static_cast<T&&>(x); } };
template<> struct ascat<const O&&> { template<class T> static const T&& f(T& x) { return static_cast<const T&&>(x); } };

// f(the option in category C, the object in the end)
template<int N, class C, class F> int with(F f) {
    Sub<N> s{};
    ran = runs = 0;
    return f(ascat<C>::f(s.o), s.h());
}
template<int N, class C, class F> int without(F f) {
    typename opt::option<typename Sub<N>::type> o;
    ran = runs = 0;
    return f(ascat<C>::f(o));
}

// a callable that is never copied and tells its own category
template<class R> struct Fo {
    R r{};
    Fo() = default;
    Fo(const Fo&) = delete;
    Fo& operator=(const Fo&) = delete;
    template<class... A> R operator()(A&&...) & { note(1); return R(r); }
    template<class... A> R operator()(A&&...) const& { note(2); return R(r); }
    template<class... A> R operator()(A&&...) && { note(3); return R(r); }
    template<class... A> R operator()(A&&...) const&& { note(4); return R(r); }
};
// other overloads give other types or are deleted
template<int K> struct Told { constexpr operator bool() const { return true; } };
template<class T> struct One2 { template<class U> T operator()(U&&) const { note(26); return {}; } };
template<int K> struct Only {
    Only() = default;
    Only(const Only&) = delete;
    Only& operator=(const Only&) = delete;
    template<class... A> std::conditional_t<K == 1, Told<1>, void> operator()(A&&...) & { note(1); return std::conditional_t<K == 1, Told<1>, void>(); }
    template<class... A> std::conditional_t<K == 2, Told<2>, void> operator()(A&&...) const& { note(2); return std::conditional_t<K == 2, Told<2>, void>(); }
    template<class... A> std::conditional_t<K == 3, Told<3>, void> operator()(A&&...) && { note(3); return std::conditional_t<K == 3, Told<3>, void>(); }
    template<class... A> std::conditional_t<K == 4, Told<4>, void> operator()(A&&...) const&& { note(4); return std::conditional_t<K == 4, Told<4>, void>(); }
};
template<int K> struct OnlyO {
    OnlyO() = default;
    OnlyO(const OnlyO&) = delete;
#define X(N, Q) template<class... A> std::conditional_t<K == N, opt::option<Told<N>>, void> operator()(A&&...) Q { note(N); if constexpr (K == N) { return opt::option<Told<N>>{Told<N>{}}; } }
    X(1, &) X(2, const&) X(3, &&) X(4, const&&)
#undef X
};
template<class> struct catno;
template<> struct catno<O&> { static constexpr int value = 1; };
template<> struct catno<const O&> { static constexpr int value = 2; };
template<> struct catno<O&&> { static constexpr int value = 3; };
template<> struct catno<const O&&> { static constexpr int value = 4; };
template<class C, class F> int only(F f) {
    Only<catno<C>::value> x{};
    ran = runs = 0;
    return f(ascat<C>::f(x));
}
template<class C, class F> int onlyo(F f) {
    OnlyO<catno<C>::value> x{};
    ran = runs = 0;
    return f(ascat<C>::f(x));
}
template<class R, class C, class F> int fo(F f) {
    Fo<R> x{};
    if constexpr (std::is_same_v<R, bool>) {
        x.r = true;
    } else if constexpr (std::is_same_v<R, OI>) {
        x.r.emplace();
    }
    ran = runs = 0;
    return f(ascat<C>::f(x));
}
inline int fn_int(const int& x) { return note(x + 20); }
inline int fn_ne(const int& x) noexcept { return note(x + 21); }
inline bool fn_bool(const int& x) { note(22); return x == 3; }
inline OI fn_opt(const int& x) { note(23); return OI{x + 1}; }
inline OI fn_none() { note(24); return OI{9}; }
inline int fn_zero() { return note(25); }
struct One { template<class T> int operator()(T&&) const { return note(26); } };
template<class C, class F> int fnwith(F f) {
    OI o{3};
    ran = runs = 0;
    return f(ascat<C>::f(o));
}
template<class C, class F> int fnwithout(F f) {
    OI o;
    ran = runs = 0;
    return f(ascat<C>::f(o));
}

// literal counterparts
struct Hc {
    int m = 5;
    bool t = true, f = false;
    OI o{7};
    constexpr Hc() {}
#define X(N, Q, _) \
    constexpr int i##N() Q { return m + N; } \
    constexpr bool t##N() Q { return true; } \
    constexpr bool f##N() Q { return false; } \
    constexpr OI o##N() Q { return OI{m + N}; } \
    constexpr int a##N(int&& x) Q { return x + N; }
    QUALS(X)
#undef X
};
struct OwnC {
    constexpr OwnC() {}
    Hc h{};
    constexpr Hc& operator*() & { return h; }
    constexpr const Hc& operator*() const& { return h; }
    constexpr Hc&& operator*() && { return static_cast<Hc&&>(h); }
    constexpr const Hc&& operator*() const&& { return static_cast<const Hc&&>(h); }
};
template<int N> struct CSub;
#define CSUB(N, T, X_, INIT, H_) template<> struct CSub<N> { X_ x{}; opt::option<T> o{INIT}; constexpr auto& h() { return H_; } };
CSUB(0, Hc, int, std::in_place, *o)
CSUB(1, const Hc, int, std::in_place, *o)
CSUB(2, Hc&, Hc, x, x)
CSUB(3, const Hc&, Hc, x, x)
CSUB(4, Hc&&, Hc, static_cast<Hc&&>(x), x)
template<class T> struct P2 { T* p; constexpr explicit P2(T* q) : p(q) {} constexpr T& operator*() const { return *p; } };
CSUB(7, P2<Hc>, Hc, P2<Hc>{&x}, x)
CSUB(8, P2<const Hc>, Hc, P2<const Hc>{&x}, x)
CSUB(12, OwnC, int, std::in_place, **o)
CSUB(17, const P2<Hc>, Hc, P2<Hc>{&x}, x)
CSUB(20, const Hc&&, Hc, static_cast<const Hc&&>(x), x)
template<class C, class T> constexpr decltype(auto) cxcat(T& x) {
    if constexpr (std::is_same_v<C, O&>) {
        return static_cast<T&>(x);
    } else if constexpr (std::is_same_v<C, const O&>) {
        return static_cast<const T&>(x);
    } else if constexpr (std::is_same_v<C, O&&>) {
        return static_cast<T&&>(x);
    } else {
        return static_cast<const T&&>(x);
    }
}
template<int N, class C, class F> constexpr int cx(F f) {
    CSub<N> s{};
    return f(cxcat<C>(s.o), s.h());
}
constexpr int cx_int(const int& x) { return x + 1; }
struct CxF { template<class T> constexpr int operator()(T&& x) const { return x + 1; } };
template<class C, class F> constexpr int cxi(F f) {
    OI o{3};
    return f(cxcat<C>(o));
}
