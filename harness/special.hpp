#pragma once
#include "payload.hpp"
#include <variant>
#include <vector>
template<class T> T dv() noexcept;
#define CC_deleted(N) N(const N&) = delete;
#define CC_throws(N) N(const N& o) : v(o.v) {}
#define CC_nothrow(N) N(const N& o) noexcept : v(o.v) {}
#define CC_trivial(N) N(const N&) = default;
#define MC_none(N)
#define MC_deleted(N) N(N&&) = delete;
#define MC_throws(N) N(N&& o) : v(o.v) {}
#define MC_nothrow(N) N(N&& o) noexcept : v(o.v) {}
#define MC_trivial(N) N(N&&) = default;
#define CA_deleted(N) N& operator=(const N&) = delete;
#define CA_throws(N) N& operator=(const N& o) { v = o.v; return *this; }
#define CA_nothrow(N) N& operator=(const N& o) noexcept { v = o.v; return *this; }
#define CA_trivial(N) N& operator=(const N&) = default;
#define MA_none(N)
#define MA_deleted(N) N& operator=(N&&) = delete;
#define MA_throws(N) N& operator=(N&& o) { v = o.v; return *this; }
#define MA_nothrow(N) N& operator=(N&& o) noexcept { v = o.v; return *this; }
#define MA_trivial(N) N& operator=(N&&) = default;
#define DT_throws(N) ~N() noexcept(false) {}
#define DT_nothrow(N) ~N() {}
#define DT_trivial(N) ~N() = default;
#define DEF(N, c, m, ca, ma, d) struct N { int v = 0; N() {} CC_##c(N) MC_##m(N) CA_##ca(N) MA_##ma(N) DT_##d(N) };
// with three levels of emptiness
#define DEFL(N, c, m, ca, ma, d) DEF(N, c, m, ca, ma, d) \
    template<> struct opt::option_traits<N> { \
        static constexpr std::uintmax_t max_level = 3; \
        static std::uintmax_t get_level(const N* p) noexcept { const auto x = std::uintmax_t(reinterpret_cast<const int&>(*p)) - 1000; return x < 3 ? x : std::uintmax_t(-1); } \
        static void set_level(N* p, std::uintmax_t l) noexcept { reinterpret_cast<int&>(*p) = int(1000 + l); } \
    };
#define SW_throws
#define SW_nothrow noexcept
#define SWD_throws ;
#define SWD_nothrow noexcept;
#define SWD_deleted = delete;
#define DEFSWAP(N, x, y, s, z) struct N##_b; \
    struct N##_a { int v = 0; N##_a() {} CC_deleted(N##_a) MC_##x(N##_a) CA_deleted(N##_a) MA_deleted(N##_a) }; \
    struct N##_b { int v = 0; N##_b() {} CC_deleted(N##_b) MC_##y(N##_b) CA_deleted(N##_b) MA_deleted(N##_b) }; \
    void swap(N##_a&, N##_b&) SWD_##s void swap(N##_b&, N##_a&) SWD_##z
template<class X, class Y, class = void> inline constexpr bool can_opt_swap = false;
template<class X, class Y> inline constexpr bool can_opt_swap<X, Y, decltype(opt::swap(dv<X&>(), dv<Y&>()), void())> = true;
struct Loud;
struct LoudF { template<class... T> Loud operator()(T&&...) const; };
struct LoudO { template<class... T> opt::option<Loud> operator()(T&&...) const; };
struct LoudP { template<class T> bool operator()(T&&) const; };

struct A { int v = 0; };
struct Unrelated { int v = 0; };
#define W_no(...)
#define W_explicitly(...) explicit __VA_ARGS__
#define W_implicitly(...) __VA_ARGS__
#define Y_0(...)
#define Y_1(...) __VA_ARGS__
// no conversions to the argument
#define EXACTLY(U) , std::enable_if_t<std::is_same_v<U, opt::option<A>>, int> = 0
#define DEFF(N, c, m, ac, am, oc, oa) struct N { \
    int v = 0; N() = default; \
    W_##c(N(const A&);) W_##m(N(A&&);) \
    Y_##ac(N& operator=(const A&);) Y_##am(N& operator=(A&&);) \
    Y_##oc(template<class U EXACTLY(U)> N(const U&);) Y_##oa(template<class U EXACTLY(U)> N& operator=(const U&);) \
};
#define NC_0(N) N();
#define NC_2(N) N(A, A); N(std::initializer_list<A>, A);
#define NC_3(N) N(A, A, A);
#define DEFN(N, k) struct N { NC_##k(N) };
struct Agg3 { int a; A b; int c; };
struct Base { int v = 0; };
struct Derived : Base {};
struct Other { int v = 0; };
