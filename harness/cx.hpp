// Constant evaluation: every transition of a specification as a table of rows, executed by the compiler and again at run time.
#pragma once
#include <opt/option.hpp>
#include <array>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace C {
constexpr unsigned long long hs(const char* s) { unsigned long long h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (unsigned char)(*s)) * 1099511628211ull; return h; }
enum Cat { none_ = 0, l_ = 1, cl_ = 2, r_ = 3, cr_ = 4, dflt_ = 5 };
struct Res {
    int n; int v[6];
    constexpr Res& operator=(int x) { n = 1; v[0] = x; return *this; }
    constexpr Res& add(int x) { v[n++] = x; return *this; }
};
struct Row { const char* name; int a[4]; int s[8]; int t[8]; Res res; int call[3]; };
// what a step shows: the state after it, its result, and how a callback was called; ok=0: an internal check failed; known=0: no such operation
struct Seen { int t[8] = {}; Res res = {}; int call[3] = {}; int ok = 1; int known = 1; };
// the parts of a name like "zip_cl_r"
struct Parts {
    unsigned long long h[5] = {}; int n = 0;
    constexpr explicit Parts(const char* s) { for (;;) { unsigned long long x = 1469598103934665603ull; while (*s && *s != '_') x = (x ^ (unsigned char)(*s++)) * 1099511628211ull; h[n++] = x; if (!*s) break; ++s; } }
    constexpr unsigned long long operator[](int i) const { return h[i]; }
};

template<class X> constexpr int cat() {
    if constexpr (std::is_lvalue_reference_v<X>) return std::is_const_v<std::remove_reference_t<X>> ? cl_ : l_;
    else return std::is_const_v<std::remove_reference_t<X>> ? cr_ : r_;
}
constexpr int enc_void = 0, enc_self = 4000, enc_null = 5000;
constexpr int enc_opt(int c) { return 1000 + c; }
constexpr int enc_val(int c) { return 2000 + c; }
constexpr int enc_bool(bool b) { return 3000 + b; }

// ------------------------------------------------------------------ payload types
constexpr int MOVED = 9;
struct Pod { int a; short b; };
struct Cls { int v; constexpr explicit Cls(int x) : v(x) {} };
struct Cls2 { int v, w; constexpr Cls2(int x, int y) : v(x), w(y) {} };
enum class En { a = 5, b = -7, c = 2147483647 };
enum class EnS : short { a = -32768, b = 32767, c = 3, SENTINEL = 77 };
enum class EnR : unsigned char { a = 0, b = 249, c = 3, SENTINEL_START = 250 };
enum class EnSE : int { a = -1, b = 30, c = 1 << 30, SENTINEL_START = 10, SENTINEL_END = 20 };
struct Usr { int v; constexpr explicit Usr(int x) : v(x) {} };
struct Sen { int v; friend constexpr bool operator==(Sen x, Sen y) { return x.v == y.v; } };
struct Mem { long z; EnS e; };
struct EqI { template<class A, class B> constexpr bool operator()(const A& x, const B& y) const { return x == y; } };
struct SetI { template<class A, class B> constexpr void operator()(A& x, const B& y) const { x = y; } };
#if __cplusplus >= 202002L
// moves leave MOVED behind; the destructor is not trivial
struct CT {
    int v;
    constexpr explicit CT(int x) : v(x) {}
    constexpr CT(const CT& o) : v(o.v) {}
    constexpr CT(CT&& o) : v(o.v) { o.v = MOVED; }
    constexpr CT& operator=(const CT& o) { v = o.v; return *this; }
    constexpr CT& operator=(CT&& o) { if (this != &o) { v = o.v; o.v = MOVED; } return *this; }
    constexpr ~CT() { v = -1; }
};
struct CTagg { CT x; int y; };
struct CTM { int v; constexpr explicit CTM(int x) : v(x) {} constexpr CTM(CTM&& o) : v(o.v) { o.v = MOVED; } constexpr CTM& operator=(CTM&& o) { if (this != &o) { v = o.v; o.v = MOVED; } return *this; } constexpr ~CTM() { v = -1; } };
struct CTI { int v; constexpr explicit CTI(int x) : v(x) {} CTI(const CTI&) = delete; CTI& operator=(const CTI&) = delete; constexpr ~CTI() { v = -1; } };
struct CTA { int v; constexpr explicit CTA(int x) : v(x) {} constexpr CTA(const CTA& o) : v(o.v) {} constexpr CTA(CTA&& o) : v(o.v) { o.v = MOVED; } CTA& operator=(const CTA&) = delete; constexpr ~CTA() { v = -1; } };
struct CTIN { int v; constexpr explicit CTIN(int x) : v(x) {} CTIN(const CTIN&) = delete; CTIN& operator=(const CTIN&) = delete; };
// owns memory: a leak or a double deletion is not a constant expression
struct Own {
    int* p;
    constexpr explicit Own(int x) : p(new int(x)) {}
    constexpr Own(const Own& o) : p(o.p ? new int(*o.p) : nullptr) {}
    constexpr Own(Own&& o) : p(o.p) { o.p = nullptr; }
    constexpr Own& operator=(const Own& o) { if (this != &o) { delete p; p = o.p ? new int(*o.p) : nullptr; } return *this; }
    constexpr Own& operator=(Own&& o) { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
    constexpr ~Own() { delete p; }
};
struct CTU { // with levels of its own
    int v;
    constexpr explicit CTU(int x) : v(x) {}
    constexpr CTU(const CTU& o) : v(o.v) {}
    constexpr CTU(CTU&& o) : v(o.v) { o.v = MOVED; }
    constexpr CTU& operator=(const CTU& o) { v = o.v; return *this; }
    constexpr CTU& operator=(CTU&& o) { if (this != &o) { v = o.v; o.v = MOVED; } return *this; }
    constexpr ~CTU() { v = -9; }
};
#endif
}
namespace C {
template<class T> constexpr void renew(T* p, int v) {
#if __cplusplus >= 202002L
    std::construct_at(p, v);
#else
    *p = T(v);
#endif
}
}
template<> struct opt::option_traits<C::Usr> {
    static constexpr std::uintmax_t max_level = 3;
    static constexpr std::uintmax_t get_level(const C::Usr* p) noexcept { return p->v <= -1 && p->v >= -3 ? std::uintmax_t(-1 - p->v) : std::uintmax_t(-1); }
    static constexpr void set_level(C::Usr* p, std::uintmax_t l) noexcept { C::renew(p, -1 - int(l)); }
};
template<> struct opt::sentinel_option_traits<C::Sen> { static constexpr C::Sen sentinel_value{-1}; };
#if __cplusplus >= 202002L
template<> struct opt::option_traits<C::CTU> {
    static constexpr std::uintmax_t max_level = 3;
    static constexpr std::uintmax_t get_level(const C::CTU* p) noexcept { return p->v <= -1 && p->v >= -3 ? std::uintmax_t(-1 - p->v) : std::uintmax_t(-1); }
    static constexpr void set_level(C::CTU* p, std::uintmax_t l) noexcept { std::construct_at(p, -1 - int(l)); }
};
#endif

namespace C {
// make(k): the k-th value; code: which one; args: how to construct it in place
template<class T> struct PL { // class with value k in v
    static constexpr T make(int k) { return T(k); }
    static constexpr int code(const T& x) { return x.v; }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(k); }
};
template<class T, class L> struct Tab { // scalars: from a list
    static constexpr T make(int k) { return L::v[k]; }
    static constexpr int code(const T& x) { for (int i = 1; i <= 3; ++i) if (L::v[i] == x) return i; return -1; }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(L::v[k]); }
};
#define CX_TAB(T, N, ...) struct List_##N { static constexpr T v[4] = {__VA_ARGS__}; }; template<> struct PL<T> : Tab<T, List_##N> {};
inline constexpr int objs[8] = {0, 1, 2, 3, 4, 5, 6, 7};
using CIP = const int*;
CX_TAB(int, int, 0, 0, -1, -2147483647 - 1)
CX_TAB(short, short, 0, 0, 32767, -5)
CX_TAB(char, char, 0, 0, 127, -128)
CX_TAB(unsigned char, uchar, 0, 0, 255, 3)
CX_TAB(long long, ll, 0, -1, 1ll << 62, 0)
CX_TAB(char16_t, c16, 0, 0, 65535, 3)
CX_TAB(En, En, {}, En::a, En::b, En::c)
CX_TAB(EnS, EnS, {}, EnS::a, EnS::b, EnS::c)
CX_TAB(EnR, EnR, {}, EnR::a, EnR::b, EnR::c)
CX_TAB(EnSE, EnSE, {}, EnSE::a, EnSE::b, EnSE::c)
CX_TAB(double, dbl, 0, 0.0, 1.5, -2)
CX_TAB(bool, bool, 0, 0, 1, 0)
CX_TAB(CIP, cip, nullptr, nullptr, objs + 1, objs + 7)
template<> struct PL<Pod> {
    static constexpr Pod make(int k) { return Pod{k, short(k * 3)}; }
    static constexpr int code(const Pod& x) { return x.b == x.a * 3 ? x.a : -1; }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(k, short(k * 3)); }
};
template<> struct PL<Mem> {
    static constexpr Mem make(int k) { return Mem{k, PL<EnS>::make(k)}; }
    static constexpr int code(const Mem& x) { return PL<EnS>::code(x.e) == x.z ? int(x.z) : -1; }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(long(k), PL<EnS>::make(k)); }
};
template<> struct PL<Cls2> {
    static constexpr Cls2 make(int k) { return Cls2{k, k * 3}; }
    static constexpr int code(const Cls2& x) { return x.w == x.v * 3 ? x.v : -1; }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(k, k * 3); }
};
template<> struct PL<Sen> {
    static constexpr Sen make(int k) { return Sen{k}; }
    static constexpr int code(const Sen& x) { return x.v; }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(k); }
};
template<class A, class B> struct PL<std::pair<A, B>> {
    using T = std::pair<A, B>;
    static constexpr T make(int k) { return T(PL<A>::make(k), PL<B>::make(k)); }
    static constexpr int code(const T& x) { int c = PL<A>::code(x.first); return PL<B>::code(x.second) == c ? c : -1; }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(PL<A>::make(k), PL<B>::make(k)); }
};
template<class A, class B> struct PL<std::tuple<A, B>> {
    using T = std::tuple<A, B>;
    static constexpr T make(int k) { return T(PL<A>::make(k), PL<B>::make(k)); }
    static constexpr int code(const T& x) { int c = PL<A>::code(std::get<0>(x)); return PL<B>::code(std::get<1>(x)) == c ? c : -1; }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(PL<A>::make(k), PL<B>::make(k)); }
};
template<class A> struct PL<std::array<A, 2>> {
    using T = std::array<A, 2>;
    static constexpr T make(int k) { return T{PL<A>::make(k), PL<A>::make(k)}; }
    static constexpr int code(const T& x) { int c = PL<A>::code(x[0]); return PL<A>::code(x[1]) == c ? c : -1; }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
template<class T, auto... X> struct PL<opt::sentinel<T, X...>> { // wrapper of T
    using W = opt::sentinel<T, X...>;
    static constexpr W make(int k) { return W(T(k)); }
    static constexpr int code(const W& x) { return int(static_cast<const T&>(x)); }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(T(k)); }
};
template<class T, class E, class S, auto... X> struct PL<opt::sentinel_f<T, E, S, X...>> {
    using W = opt::sentinel_f<T, E, S, X...>;
    static constexpr W make(int k) { return W(T(k)); }
    static constexpr int code(const W& x) { return int(static_cast<const T&>(x)); }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(T(k)); }
};
template<class T, auto M> struct PL<opt::member<T, M>> {
    using W = opt::member<T, M>;
    static constexpr W make(int k) { return W(PL<T>::make(k)); }
    static constexpr int code(const W& x) { return PL<T>::code(static_cast<const T&>(x)); }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(PL<T>::make(k)); }
};
template<class T> struct PL<opt::enforce<T>> {
    using W = opt::enforce<T>;
    static constexpr W make(int k) { return W(PL<T>::make(k)); }
    static constexpr int code(const W& x) { return PL<T>::code(static_cast<const T&>(x)); }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(PL<T>::make(k)); }
};
#if __cplusplus >= 202002L
template<> struct PL<Own> {
    static constexpr Own make(int k) { Own r(k); if (k == MOVED) { delete r.p; r.p = nullptr; } return r; }
    static constexpr int code(const Own& x) { return x.p ? *x.p : MOVED; }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(k); }
};
template<> struct PL<CTagg> {
    static constexpr CTagg make(int k) { return CTagg{CT(k), 3}; }
    static constexpr int code(const CTagg& x) { return x.y == 3 ? x.x.v : -1; }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(CT(k), 3); }
};
template<> struct PL<std::vector<int>> {
    static constexpr std::vector<int> make(int k) { if (k == MOVED) return {}; return std::vector<int>(k, k); }
    static constexpr int code(const std::vector<int>& x) { if (x.empty()) return MOVED; for (int y : x) if (y != int(x.size())) return -1; return int(x.size()); }
    template<class F> static constexpr decltype(auto) args(int k, F&& f) { return f(k, k); }
};
#endif

template<class T> constexpr int code(const opt::option<T>& o) {
    const bool h = o.has_value();
    if (h != bool(o) || h == (o == opt::none) || (o.ptr_or_null() != nullptr) != h) return -2;
    if (!h) return 0;
    const int c = PL<T>::code(o.get());
    if (PL<T>::code(*o) != c || PL<T>::code(*o.operator->()) != c || PL<T>::code(o.get_unchecked()) != c) return -3;
    return c;
}
// an option with the content of the code, made in one of several ways
template<class T> constexpr opt::option<T> mk(int c) {
    if (c == 0) return opt::option<T>();
    if constexpr (std::is_move_constructible_v<T>) { if (c == MOVED) return opt::option<T>(PL<T>::make(c)); }
    return PL<T>::args(c, [](auto&&... a) { return opt::option<T>(std::in_place, static_cast<decltype(a)&&>(a)...); });
}

// Every row, once by the compiler and once at run time.
template<class F, std::size_t N> constexpr auto all_of(const Row (&rows)[N], F) {
    std::array<Seen, N> r{};
    for (std::size_t i = 0; i < N; ++i) r[i] = F::step(rows[i]);
    return r;
}
inline void show(const char* what, std::size_t i, const Seen& o) {
    std::printf("{\"row\":%zu,\"at\":\"%s\",\"t\":[%d,%d,%d,%d,%d,%d,%d,%d],\"res\":[%d,%d,%d,%d,%d,%d],\"n\":%d,\"call\":[%d,%d,%d],\"ok\":%d,\"known\":%d}\n", i, what,
        o.t[0], o.t[1], o.t[2], o.t[3], o.t[4], o.t[5], o.t[6], o.t[7], o.res.v[0], o.res.v[1], o.res.v[2], o.res.v[3], o.res.v[4], o.res.v[5], o.res.n, o.call[0], o.call[1], o.call[2], o.ok, o.known);
}
constexpr bool agree(const Row& r, const Seen& o) {
    if (!o.ok || !o.known) return false;
    for (int k = 0; k < 8; ++k) if (o.t[k] != r.t[k]) return false;
    for (int k = 0; k < 3; ++k) if (o.call[k] != r.call[k]) return false;
    if (o.res.n != r.res.n) return false;
    for (int k = 0; k < r.res.n; ++k) if (o.res.v[k] != r.res.v[k]) return false;
    return true;
}
template<class F, std::size_t N> int compare(const Row (&rows)[N], const std::array<Seen, N>& ct) {
    for (std::size_t i = 0; i < N; ++i) {
        if (!agree(rows[i], ct[i])) { show("constant evaluation", i, ct[i]); return 1; }
        static volatile int hide = 0;       // the same at run time
        Row r = rows[i];
        for (int& x : r.a) x += hide;
        for (int& x : r.s) x += hide;
        const Seen o = F::step(r);
        if (!agree(rows[i], o)) { show("run time", i, o); return 1; }
    }
    std::printf("{\"rows\":%zu}\n", N);
    return 0;
}
} // namespace C
