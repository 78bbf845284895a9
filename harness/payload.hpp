// Payload types: how to build the k-th value, how to recognise it, how to construct it in place.
#pragma once
#include "common.hpp"
#include <cmath>

namespace H {

struct User { int a; std::string s; };
enum class EAuto : unsigned char { a, b, c, d = 9 };
enum class EAuto32 : unsigned { a, b = 3, c = 700 };
enum class ESent : int { a = -5, b = 7, c = 100, SENTINEL = -1 };
enum class EStart : unsigned char { a, b, c = 99, SENTINEL_START = 250 };
enum class EStartS : signed char { a = -100, b = 3, c = 4, SENTINEL_START = 120 };
enum class EStartEnd : short { a = -1, b = 0, c = 300, SENTINEL_START = 10, SENTINEL_END = 20 };
enum class EPlain : int { a, b, c };
namespace { enum class EHid : std::uint8_t { a, c, b = 100 }; }
enum EOpen { eo_o0, eo_o1, eo_o5 = 5 };
enum EOld : unsigned short { eo_a, eo_b, eo_c };
struct Pad8 { int a; std::uint8_t PADDING; };
struct Pad32 { char a; std::uint32_t PADDING; };
struct Pad16 { long a; std::uint16_t PADDING; };
struct PadB { char c; Pad16 p; };
struct Poly { int a; explicit Poly(int x) : a(x) {} virtual int id() const { return a; } virtual ~Poly() = default; Poly(const Poly&) = default; Poly& operator=(const Poly&) = default; };
struct PolyT { int a; explicit PolyT(int x) : a(x) {} virtual int id() const { return a; } };
struct PolyD final : Poly { int b; explicit PolyD(int x) : Poly(x), b(x * 7) {} int id() const override { return b; } };
struct AggIF { int i; float f; };
struct AggCB { char c; bool b; double d; };
struct AggPtr { char c; int* p; };
struct NonAgg { int i; float f; explicit NonAgg(int a, float b) : i(a), f(b) {} };
struct SentinelT { int v; friend bool operator==(SentinelT a, SentinelT b) { return a.v == b.v; } };
struct TupleLike { int a; bool b; float c; };
struct TupleLikeM { double a; bool b; template<std::size_t I> auto& get() { if constexpr (I == 0) return a; else return b; } template<std::size_t I> const auto& get() const { if constexpr (I == 0) return a; else return b; } TupleLikeM(double x, bool y) : a(x), b(y) {} };
template<std::size_t I, class T, std::enable_if_t<std::is_same_v<std::remove_const_t<T>, TupleLike>, int> = 0>
auto& get(T& x) { if constexpr (I == 0) return x.a; else if constexpr (I == 1) return x.b; else return x.c; }
struct Mem { int a; const char* p; };
struct MemC { int a; bool f; long z; };
struct EqI { template<class A, class B> constexpr bool operator()(const A& a, const B& b) const { return a == b; } };
struct SetI { template<class A, class B> constexpr void operator()(A& a, const B& b) const { a = b; } };
struct S0 { int f(int x) const { return x + 1; } int g(int x) const { return x + 2; } int h(int) const { return 0; } int m1, m2, m3; virtual void vf() {} };
inline int fn1(int x) { return x; } inline int fn2(int x) { return x + 1; } inline int fn3(int x) { return x + 2; }
inline int objs[8] = {0, 1, 2, 3, 4, 5, 6, 7};
struct DefVec { std::vector<int> v; };
} // namespace H

template<> struct std::tuple_size<H::TupleLike> : std::integral_constant<std::size_t, 3> {};
template<> struct std::tuple_element<0, H::TupleLike> { using type = int; };
template<> struct std::tuple_element<1, H::TupleLike> { using type = bool; };
template<> struct std::tuple_element<2, H::TupleLike> { using type = float; };
template<> struct std::tuple_size<H::TupleLikeM> : std::integral_constant<std::size_t, 2> {};
template<> struct std::tuple_element<0, H::TupleLikeM> { using type = double; };
template<> struct std::tuple_element<1, H::TupleLikeM> { using type = bool; };
template<> struct opt::sentinel_option_traits<H::SentinelT> { static constexpr H::SentinelT sentinel_value{-1}; };

namespace H {
using opt::option;

// std::vector of a move-only type claims to be copyable
template<class T> inline constexpr bool copyable = std::is_copy_constructible_v<T>;
template<class E> inline constexpr bool copyable<std::vector<E>> = copyable<E>;

// default: value k is T(k)
template<class T, class = void> struct PL {
    static T make(int k) { return T(k); }
    static int code(const T& x) { return int(x); }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
template<class T> struct PLtracked {
    static T make(int k) { return T(k); }
    static int code(const T& x) { alive(std::addressof(x), "read"); return x.v; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(k); }
};
template<> struct PL<TF> : PLtracked<TF> {};
template<> struct PL<TN> : PLtracked<TN> {};
template<> struct PL<TNM> : PLtracked<TNM> {};
template<> struct PL<TM> : PLtracked<TM> {};
template<> struct PL<TMN> : PLtracked<TMN> {};
template<> struct PL<TI> : PLtracked<TI> {};
template<> struct PL<TIN> : PLtracked<TIN> {};
template<> struct PL<TA> : PLtracked<TA> {};
template<class T> struct PL<T, std::enable_if_t<(sizeof(T::mask) > 0)>> {
    static T make(int k) { return T(k); }
    static int code(const T& x) { return x.v; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(k); }
};
template<class A, class X> struct PLagg {
    static A make(int k) { return A{X(k), k * 3}; }
    static int code(const A& x) { int c = PL<X>::code(x.x); if (c != MOVED && x.y != c * 3) return -1; return c; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(X(k), k * 3); }
};
template<> struct PL<AggT> : PLagg<AggT, TF> {};
template<> struct PL<AggN> : PLagg<AggN, TN> {};

#define H_FIXED(T, ...) \
    template<> struct PL<T> { \
        static const T* tab() { static const T t[] = {__VA_ARGS__}; return t; } \
        static T make(int k) { return tab()[k]; } \
        static int code(const T& x) { for (int i = 1; i <= 3; ++i) if (std::memcmp((const void*)&x, (const void*)&tab()[i], sizeof(T)) == 0) return i; return -1; } \
        template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); } \
    };
// scalars: index 1..3 are chosen at the edges of the domain; compared bit for bit
H_FIXED(char, 0, 0, 127, -128)
H_FIXED(unsigned char, 0, 0, 255, 2)
H_FIXED(int, 0, 0, -1, std::numeric_limits<int>::min())
H_FIXED(unsigned long, 0, 0, ~0ul, 1ul)
H_FIXED(float, 0, 0.f, -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN())
H_FIXED(double, 0, -0.0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::denorm_min())
H_FIXED(EAuto, {}, EAuto::a, EAuto::d, EAuto::b)
H_FIXED(EAuto32, {}, EAuto32::a, EAuto32::c, EAuto32::b)
H_FIXED(ESent, {}, ESent::a, ESent::b, ESent::c)
H_FIXED(EStart, {}, EStart::a, EStart(249), EStart::c)
H_FIXED(EStartS, {}, EStartS::a, EStartS(119), EStartS::c)
H_FIXED(EStartEnd, {}, EStartEnd(9), EStartEnd(21), EStartEnd::c)
H_FIXED(EPlain, {}, EPlain::a, EPlain::b, EPlain(-1))
H_FIXED(EOld, {}, eo_a, eo_c, eo_b)
H_FIXED(EHid, {}, EHid::a, EHid::b, EHid::c)
H_FIXED(EOpen, {}, eo_o0, eo_o5, eo_o1)
using IntPtr = int*; using CCharPtr = const char*; using VoidPtr = void*; using FnPtr = int (*)(int); using CIntPtr = const int*;
using PtrPtr = int**;
inline int* pp[4] = {objs, objs + 1, objs + 2, objs + 3};
H_FIXED(IntPtr, nullptr, nullptr, objs + 1, objs + 7)
H_FIXED(CIntPtr, nullptr, nullptr, objs + 1, objs + 7)
H_FIXED(PtrPtr, nullptr, pp, pp + 2, nullptr)
H_FIXED(CCharPtr, nullptr, "a", nullptr, "b")
H_FIXED(VoidPtr, nullptr, (void*)1, (void*)~std::uintptr_t(0), nullptr)
H_FIXED(FnPtr, nullptr, fn1, nullptr, fn2)
using MDPtr = int S0::*; using MFPtr = int (S0::*)(int) const;
H_FIXED(MDPtr, nullptr, &S0::m1, nullptr, &S0::m3)
template<> struct PL<long double> {
    static long double make(int k) { return k * 1.5L; }
    static int code(const long double& x) { return int(x / 1.5L); }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
template<> struct PL<MFPtr> {
    static MFPtr make(int k) { return k == 1 ? &S0::f : k == 2 ? nullptr : &S0::g; }
    static int code(const MFPtr& x) { return x == &S0::f ? 1 : x == nullptr ? 2 : x == &S0::g ? 3 : -1; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
template<> struct PL<bool> {
    static bool make(int k) { return k == 2; }
    static int code(const bool& x) { unsigned char c; std::memcpy(&c, &x, 1); return c == 0 ? 1 : c == 1 ? 2 : -1; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
template<class E> struct PL<std::basic_string<E>> {
    using T = std::basic_string<E>;
    static std::size_t len(int k) { return k == 1 ? 3 : k == 2 ? 64 : 15; }
    static T make(int k) { return T(len(k), E('a' + k)); }
    static int code(const T& x) { if (x.empty()) return MOVED; for (int k = 1; k <= 3; ++k) if (x == make(k)) return k; return -1; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(len(k), E('a' + k)); }
};
template<class E> struct PL<std::vector<E>> {
    using T = std::vector<E>;
    static T make(int k) { T r; for (int i = 0; i < k * 2; ++i) r.push_back(PL<E>::make(k)); return r; } // k*2 equal elements
    static int code(const T& x) {
        if (x.empty()) return MOVED;
        if (x.size() > 6 || x.size() % 2) return -1;
        int k = int(x.size() / 2);
        for (auto&& e : x) if (PL<E>::code(e) != k) return -1;
        return k;
    }
    template<class F> static decltype(auto) args(int k, F&& f) {
        auto t = make(k);
        if constexpr (std::is_copy_constructible_v<E>) return f(t.begin(), t.end());
        else return f(std::make_move_iterator(t.begin()), std::make_move_iterator(t.end()));
    }
};
template<> struct PL<std::vector<bool>> {
    using T = std::vector<bool>;
    static T make(int k) { return T(k, true); }
    static int code(const T& x) { return x.empty() ? MOVED : int(x.size()); }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(std::size_t(k), true); }
};
template<class E> struct PL<std::deque<E>> {
    using T = std::deque<E>;
    static T make(int k) { return T(k, k); }
    static int code(const T& x) { return x.empty() ? MOVED : int(x.size()); }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(std::size_t(k), k); }
};
template<class E> struct PL<std::unique_ptr<E>> {
    using T = std::unique_ptr<E>;
    static T make(int k) { return T(new E(k)); }
    static int code(const T& x) { return x ? PL<E>::code(*x) : MOVED; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
template<> struct PL<std::unique_ptr<int>> {
    using T = std::unique_ptr<int>;
    static T make(int k) { return T(new int(k)); }
    static int code(const T& x) { return x ? *x : MOVED; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
template<> struct PL<std::unique_ptr<int[]>> {
    using T = std::unique_ptr<int[]>;
    static T make(int k) { return T(new int[2]{k, k}); }
    static int code(const T& x) { return x ? x[1] : MOVED; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
template<class E> struct PL<std::shared_ptr<E>> {
    using T = std::shared_ptr<E>;
    static T make(int k) { return T(new E(k)); }
    static int code(const T& x) { return x ? int(*x) : MOVED; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
template<> struct PL<std::string_view> {
    using T = std::string_view;
    static T make(int k) { return k == 1 ? T() : k == 2 ? T("abcdef", 4) : T("", 0); }
    static int code(const T& x) { return x.data() == nullptr && x.empty() ? 1 : x == "abcd" ? 2 : x.empty() ? 3 : -1; }
    template<class F> static decltype(auto) args(int k, F&& f) { T t = make(k); return f(t.data(), t.size()); }
};
template<> struct PL<std::u32string_view> {
    using T = std::u32string_view;
    static T make(int k) { return k == 1 ? T() : k == 2 ? T(U"abcdef", 4) : T(U"", 0); }
    static int code(const T& x) { return x.data() == nullptr && x.empty() ? 1 : x.size() == 4 ? 2 : x.empty() ? 3 : -1; }
    template<class F> static decltype(auto) args(int k, F&& f) { T t = make(k); return f(t.data(), t.size()); }
};
template<> struct PL<std::u16string_view> {
    using T = std::u16string_view;
    static T make(int k) { return k == 1 ? T() : k == 2 ? T(u"abcdef", 4) : T(u"", 0); }
    static int code(const T& x) { return x.data() == nullptr && x.empty() ? 1 : x.size() == 4 ? 2 : x.empty() ? 3 : -1; }
    template<class F> static decltype(auto) args(int k, F&& f) { T t = make(k); return f(t.data(), t.size()); }
};
template<class E> struct PL<std::reference_wrapper<E>> {
    using T = std::reference_wrapper<E>;
    static T make(int k) { return T(objs[k]); }
    static int code(const T& x) { return int(&x.get() - objs); }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(objs[k]); }
};
template<class E> struct PL<std::complex<E>> {
    using T = std::complex<E>;
    static T make(int k) { return T(E(k), E(-k)); }
    static int code(const T& x) { return x.imag() == -x.real() ? int(x.real()) : -1; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(E(k), E(-k)); }
};
// combine the parts: every part must carry the same k, except that a moved-from part says MOVED
template<class... C> int comb(C... c) {
    int cs[] = {c...}; int k = 0; bool moved = false;
    for (int x : cs) { if (x == MOVED) moved = true; else if (k == 0) k = x; else if (k != x) return -1; }
    return moved ? MOVED : k;
}
template<class A, class B> struct PL<std::pair<A, B>> {
    using T = std::pair<A, B>;
    static T make(int k) { return T(PL<A>::make(k), PL<B>::make(k)); }
    static int code(const T& x) { return comb(PL<A>::code(x.first), PL<B>::code(x.second)); }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(PL<A>::make(k), PL<B>::make(k)); }
};
template<class... Ts> struct PL<std::tuple<Ts...>> {
    using T = std::tuple<Ts...>;
    static T make(int k) { return T(PL<Ts>::make(k)...); }
    static int code(const T& x) { return std::apply([](const Ts&... y) { return comb(PL<Ts>::code(y)...); }, x); }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(PL<Ts>::make(k)...); }
};
template<class E, std::size_t N> struct PL<std::array<E, N>> {
    using T = std::array<E, N>;
    template<std::size_t... I> static T mk(int k, std::index_sequence<I...>) { return T{((void)I, PL<E>::make(k))...}; }
    static T make(int k) { return mk(k, std::make_index_sequence<N>{}); }
    static int code(const T& x) { int c = PL<E>::code(x[0]); for (auto&& e : x) c = comb(c, PL<E>::code(e)); return c; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
template<class E> struct PL<std::optional<E>> {
    using T = std::optional<E>;
    static T make(int k) { return k == 1 ? T() : T(E(k)); }
    static int code(const T& x) { return x ? int(*x) : 1; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
// option as a payload: with KEEP value 1 is the empty inner option, otherwise all values are engaged
template<class X> struct PL<option<X>> {
    using T = option<X>;
    static constexpr bool triv = std::is_trivially_copyable_v<X>;
    static T make(int k) { if constexpr (triv) { return k == 1 ? T() : T(PL<X>::make(k)); } else return T(PL<X>::make(k)); }
    static int code(const T& x) {
        if constexpr (triv) { if (!x.has_value()) return 1; int c = PL<X>::code(*x); return c == 1 ? -1 : c; }
        else return x.has_value() ? PL<X>::code(*x) : -1;
    }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
template<class X> struct PL<option<X&>> {
    using T = option<X&>;
    static T make(int k) { if (k == 1) return T(); return T(objs[k]); }
    static int code(const T& x) { return x.has_value() ? int(&*x - objs) : 1; }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); }
};
#define H_AGG(T, C, M) \
    template<> struct PL<T> { \
        static T make(int k) { return T M; } \
        static int code(const T& x) { return C; } \
        template<class F> static decltype(auto) args(int k, F&& f) { return f(make(k)); } \
    };
#define H_AGG2(T, C, ...) \
    template<> struct PL<T> { \
        static T make(int k) { return T{__VA_ARGS__}; } \
        static int code(const T& x) { return C; } \
        template<class F> static decltype(auto) args(int k, F&& f) { return f(__VA_ARGS__); } \
    };
H_AGG2(User, x.s.empty() ? MOVED : x.s == PL<std::string>::make(x.a) ? x.a : -1, k, PL<std::string>::make(k))
H_AGG2(AggIF, x.f == float(x.i) / 2 ? x.i : -1, k, float(k) / 2)
H_AGG2(AggCB, x.d == x.c * 1.5 && x.b == (x.c == 2) ? x.c : -1, char(k), k == 2, k * 1.5)
H_AGG2(AggPtr, x.p == objs + x.c ? x.c : -1, char(k), objs + k)
H_AGG2(DefVec, PL<std::vector<int>>::code(x.v), PL<std::vector<int>>::make(k))
H_AGG2(Mem, x.p == nullptr ? (x.a == 2 ? 2 : -1) : x.a == x.p[0] - '0' ? x.a : -1, k, k == 2 ? nullptr : k == 1 ? "1" : "3")
H_AGG2(MemC, x.f == (x.a == 1) && x.z == x.a ? x.a : -1, k, k == 1, k)
H_AGG(NonAgg, x.f == float(x.i) / 2 ? x.i : -1, (k, float(k) / 2))
H_AGG(SentinelT, x.v, {k})
H_AGG(TupleLike, x.b == (x.a == 2) && x.c == x.a ? x.a : -1, ({k, k == 2, float(k)}))
H_AGG(TupleLikeM, x.b == (x.a == 2) ? int(x.a) : -1, (double(k), k == 2))
H_AGG(Poly, x.id(), (k))
H_AGG(PolyT, x.id(), (k))
H_AGG(PolyD, x.id() == x.a * 7 ? x.a : -1, (k))
H_AGG(Pad8, x.PADDING == 0 ? x.a : -1, ({k, 0}))
H_AGG(Pad16, x.PADDING == 0 ? int(x.a) : -1, ({k, 0}))
H_AGG(Pad32, x.PADDING == 0 ? int(x.a) : -1, ({char(k), 0}))
H_AGG(PadB, x.c == x.p.a && x.p.PADDING == 0 ? x.c : -1, ({char(k), {k, 0}}))
template<auto... V> struct PL<opt::sentinel<int, V...>> {
    using T = opt::sentinel<int, V...>;
    static T make(int k) { return T(k); }
    static int code(const T& x) { return static_cast<const int&>(x); }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(k); }
};
template<class C, class S, auto... V> struct PL<opt::sentinel_f<int, C, S, V...>> {
    using T = opt::sentinel_f<int, C, S, V...>;
    static T make(int k) { return T(k); }
    static int code(const T& x) { return static_cast<const int&>(x); }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(k); }
};
template<class X, auto M> struct PL<opt::member<X, M>> {
    using T = opt::member<X, M>;
    static T make(int k) { return T(PL<X>::make(k)); }
    static int code(const T& x) { return PL<X>::code(static_cast<const X&>(x)); }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(PL<X>::make(k)); }
};
template<class X> struct PL<opt::enforce<X>> {
    using T = opt::enforce<X>;
    static T make(int k) { return T(PL<X>::make(k)); }
    static int code(const T& x) { return PL<X>::code(static_cast<const X&>(x)); }
    template<class F> static decltype(auto) args(int k, F&& f) { return f(PL<X>::make(k)); }
};
} // namespace H
