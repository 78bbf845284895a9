// Replays behaviours of spec/Wrappers.tla.  -DWV=variant -DWD=depth.   usage: wrappers SCRIPT 0
#include "val.hpp"
using namespace H;
using opt::option;
static std::string res; static bool ran = true;
static void add(long long x) { res += (res.empty() ? "" : ",") + std::to_string(x); }

// X: T what is wrapped, W the payload, make(code) / code(T); codes 1..3 ordinary values, 10+k the k-th designated one, 9 moved from
template<class T_, class W_, bool WR> struct Base { using T = T_; using W = W_; static constexpr bool writable = WR; static constexpr bool wrapper = !std::is_same_v<T, W>; };
template<class T, class W, bool WR, class Tab> struct Listed : Base<T, W, WR> {
    static T make(int c) { for (auto& e : Tab::get()) if (e.first == c) return e.second; fail("no such value"); return Tab::get()[0].second; }
    static int code(const T& x) { for (auto& e : Tab::get()) if (e.second == x) return e.first; return -1; }
};
#define TAB(N, T, ...) struct N { static auto& get() { static const std::vector<std::pair<int, T>> t{__VA_ARGS__}; return t; } };
#define P(c, ...) std::pair<int, TT>(c, __VA_ARGS__)
struct CmpA { template<class S> bool operator()(const S& s, int v) const { return s.a == v; } };
struct SetA { template<class S> void operator()(S& s, int v) const { s.a = v; } };
struct NotSet { bool operator()(int v, int m) const { return (v & 3) == m; } };
struct SetLow { void operator()(int& v, int m) const { v = (v & ~3) | m; } };
static int other_obj, tail_lost;
struct SF { int a; int b = 41; explicit SF(int x = 0) : a(x) {} friend bool operator!=(const SF& p, const SF& q) { return !(p == q); } friend bool operator==(const SF& x, const SF& y) { return x.a == y.a && x.b == y.b; } };
struct SOT { int v; friend bool operator!=(const SOT& p, const SOT& q) { return !(p == q); } friend bool operator==(const SOT& a, const SOT& b) { return a.v == b.v; } };
struct UT { unsigned x; unsigned char y; friend bool operator!=(const UT& p, const UT& q) { return !(p == q); } friend bool operator==(const UT& a, const UT& b) { return a.x == b.x && a.y == b.y; } };
struct UL { long x; friend bool operator!=(const UL& p, const UL& q) { return !(p == q); } friend bool operator==(const UL& a, const UL& b) { return a.x == b.x; } };
struct MB { int x; bool b; long y; friend bool operator!=(const MB& p, const MB& q) { return !(p == q); } friend bool operator==(const MB& l, const MB& r) { return l.x == r.x && l.b == r.b && l.y == r.y; } };
enum class ES : short { a = -7, b = 0, c = 8, SENTINEL = 3 };
struct MS { std::string name; ES e; friend bool operator!=(const MS& p, const MS& q) { return !(p == q); } friend bool operator==(const MS& l, const MS& r) { return l.name == r.name && l.e == r.e; } MS(std::string n, ES v) : name(std::move(n)), e(v) {} };
struct MT { TF t; const char* p; MT(int k) : t(k), p(k == 3 ? nullptr : "p") {} };
struct MO { option<int> o; int z; MO(option<int> x, int y) : o(x), z(y) {} friend bool operator!=(const MO& p, const MO& q) { return !(p == q); } friend bool operator==(const MO& l, const MO& r) { return l.o == r.o && l.z == r.z; } };
template<> struct opt::sentinel_option_traits<SOT> { static constexpr SOT sentinel_value{-9}; };
template<> struct opt::option_traits<UT> { // the level lives in one byte
    static constexpr std::uintmax_t max_level = 3;
    static std::uintmax_t get_level(const UT* p) noexcept { return std::uintmax_t(p->y) - 200; }
    static void set_level(UT* p, std::uintmax_t l) noexcept { p->y = static_cast<unsigned char>(200 + l); }
};
template<> struct opt::option_traits<UL> { // as in the documentation: any other number means engaged
    static constexpr std::uintmax_t max_level = 1;
    static constexpr std::uintmax_t get_level(const UL* p) noexcept { return std::uintmax_t(p->x - 100); }
    static constexpr void set_level(UL* p, std::uintmax_t) noexcept { p->x = 100; }
};
template<int N> struct X;
#define TT int
TAB(T1, int, P(1, -2), P(2, 0), P(3, 2147483647), P(11, -1))
template<> struct X<1> : Listed<int, opt::sentinel<int, -1>, true, T1> {};
TAB(T2, int, P(1, -299), P(2, -2), P(3, 1), P(11, -1), P(12, -300))
template<> struct X<2> : Listed<int, opt::sentinel<int, -1, -300>, true, T2> {};
TAB(T3, int, P(1, -301), P(2, 76), P(3, 78), P(11, -1), P(12, -300), P(13, 77))
template<> struct X<3> : Listed<int, opt::sentinel<int, -1, -300, 77>, true, T3> {};
TAB(T12, int, P(1, 4), P(2, 8), P(3, 400), P(11, 1), P(12, 2), P(13, 3))
TAB(T24, int, P(1, -302), P(2, 0), P(3, 76), P(11, -1), P(12, -300), P(13, 77), P(14, 2147483647), P(15, -301))
template<> struct X<24> : Listed<int, opt::sentinel<int, -1, -300, 77, 2147483647, -301>, true, T24> {};
TAB(T26, int, P(1, -4), P(2, 4), P(3, 400), P(11, 3), P(12, 2), P(13, 0 + 5), P(14, 6))
struct NotHeld { bool operator()(int v, int m) const { return v == m; } };
struct Hold { void operator()(int& v, int m) const { v = m; } };
template<> struct X<26> : Listed<int, opt::sentinel_f<int, NotHeld, Hold, 3, 2, 5, 6>, true, T26> {};
template<> struct X<12> : Listed<int, opt::sentinel_f<int, NotSet, SetLow, 1, 2, 3>, false, T12> {};
#undef TT
#define TT char
TAB(T4, char, P(1, -127), P(2, 'w'), P(3, 'y'), P(11, 'x'), P(12, 0), P(13, -128))
template<> struct X<4> : Listed<char, opt::sentinel<char, 'x', '\0', -128>, true, T4> {};
#undef TT
#define TT unsigned char
TAB(T25, unsigned char, P(1, 0), P(2, 3), P(3, 254), P(11, 255), P(12, 7), P(13, 9), P(14, 1))
template<> struct X<25> : Listed<unsigned char, opt::sentinel<unsigned char, 255, 7, 9, 1>, true, T25> {};
#undef TT
#define TT ES
TAB(T5, ES, P(1, ES::a), P(2, ES::c), P(3, ES(9)), P(11, ES::b), P(12, ES::SENTINEL))
template<> struct X<5> : Listed<ES, opt::sentinel<ES, ES::b, ES::SENTINEL>, true, T5> {};
#undef TT
#define TT int*
TAB(T6, int*, P(1, &tail_lost), P(2, &objs[1]), P(3, &objs[7]), P(11, nullptr), P(12, &other_obj))
template<> struct X<6> : Listed<int*, opt::sentinel<int*, nullptr, &other_obj>, true, T6> {};
#undef TT
#define TT double
TAB(T7, double, P(1, -1.5), P(2, 1e-300), P(3, 3.0), P(11, -1.0), P(12, 0.0))
template<> struct X<7> : Listed<double, opt::sentinel<double, -1, 0>, true, T7> {};
#undef TT
#define TT unsigned long long
TAB(T8, unsigned long long, P(1, 1), P(2, ~0ull - 0xFFFFFFFFull), P(3, ~0ull - 1), P(11, ~0ull), P(12, 0))
template<> struct X<8> : Listed<unsigned long long, opt::sentinel<unsigned long long, ~0ull, 0u>, true, T8> {};
#undef TT
#define TT SF
TAB(T9, SF, P(1, SF(0)), P(2, SF(2)), P(3, SF(8)), P(11, SF(1)), P(12, SF(5)), P(13, SF(9)))
template<> struct X<9> : Listed<SF, opt::sentinel_f<SF, CmpA, SetA, 1, 5, 9>, true, T9> {
    static int code(const SF& x) { for (auto& e : T9::get()) if (e.second.a == x.a) return e.first < 10 && x.b != 41 ? -1 : e.first; return -1; } // an empty one has just the field
};
#undef TT
#define TT SOT
TAB(T10, SOT, P(1, SOT{-8}), P(2, SOT{0}), P(3, SOT{9}), P(11, SOT{-9}))
template<> struct X<10> : Listed<SOT, SOT, true, T10> {};
#undef TT
#define TT UT
TAB(T11, UT, P(1, UT{7u, 199}), P(2, UT{7u, 203}), P(3, UT{8u, 0}), P(11, UT{7u, 200}), P(12, UT{7u, 201}), P(13, UT{7u, 202}))
template<> struct X<11> : Listed<UT, UT, false, T11> {};
#undef TT
#define TT UL
TAB(T13, UL, P(1, UL{99}), P(2, UL{101}), P(3, UL{100 + (1L << 32)}), P(11, UL{100}))
template<> struct X<13> : Listed<UL, UL, true, T13> {};
#undef TT
#define TT MB
TAB(T14, MB, P(1, MB{1, false, 1}), P(2, MB{1, true, 1}), P(3, MB{3, true, -1}))
template<> struct X<14> : Listed<MB, opt::member<MB, &MB::b>, false, T14> {};
#undef TT
template<> struct X<15> : Base<MS, opt::member<MS, &MS::e>, false> {
    static MS make(int c) { return {std::string(std::size_t(c) * 20, 'm'), c == 1 ? ES::a : c == 2 ? ES::b : ES::c}; }
    static int code(const MS& x) { if (x.name.empty()) return MOVED; for (int c = 1; c <= 3; ++c) if (x == make(c)) return c; return -1; }
};
template<> struct X<16> : Base<MT, opt::member<MT, &MT::p>, false> {
    static MT make(int c) { return MT(c); }
    static int code(const MT& x) { alive(std::addressof(x.t), "read"); const int c = x.t.v; if (c == MOVED) return c; if ((x.p == nullptr) != (c == 3)) return -1; return c; }
};
#define TT float
TAB(T17, float, P(1, -0.5f), P(2, 0.f), P(3, std::numeric_limits<float>::infinity()))
template<> struct X<17> : Listed<float, opt::enforce<float>, false, T17> {};
#undef TT
using PIB = std::pair<int, bool>;
#define TT PIB
TAB(T18, PIB, P(1, PIB{0, false}), P(2, PIB{0, true}), P(3, PIB{-1, true}))
template<> struct X<18> : Listed<PIB, opt::enforce<PIB>, false, T18> {};
#undef TT
template<> struct X<19> : Base<std::string, opt::enforce<std::string>, false> { static std::string make(int c) { return PL<std::string>::make(c); } static int code(const std::string& s) { return PL<std::string>::code(s); } };
template<> struct X<20> : Base<TN, TN, false> { static TN make(int c) { return TN(c); } static int code(const TN& x) { return PL<TN>::code(x); } };
template<> struct X<21> : Base<MO, opt::member<MO, &MO::o>, false> {
    static MO make(int c) { return c == 1 ? MO(opt::none, 1) : MO(c == 2 ? -1 : 0, c); }
    static int code(const MO& x) { for (int c = 1; c <= 3; ++c) if (x == make(c)) return c; return -1; }
};
template<> struct X<22> : Base<std::unique_ptr<int>, opt::enforce<std::unique_ptr<int>>, false> { static std::unique_ptr<int> make(int c) { return std::make_unique<int>(c); } static int code(const std::unique_ptr<int>& p) { return p ? *p : MOVED; } };
using S12 = opt::sentinel<int, -1, -2>;
template<> struct X<23> : Base<S12, opt::enforce<S12>, true> { // a wrapper of a wrapper
    static S12 make(int c) { return S12(c > 10 ? 10 - c : c - 1); }
    static int code(const S12& x) { const int& v = x; return v < 0 ? 10 - v : v + 1; }
};
using V_ = X<WV>; using T = V_::T; using W = V_::W;
constexpr int D = WD;
constexpr bool PLAIN = std::is_trivially_copyable_v<W>, COPY = std::is_copy_constructible_v<T>;
template<int N> struct nest_t { using type = option<typename nest_t<N - 1>::type>; };
template<> struct nest_t<0> { using type = W; };
template<int N> using nest = typename nest_t<N>::type;
using O = nest<D>;
static_assert(std::is_trivially_copyable_v<O> == PLAIN);
template<class A, class B, class = void> struct has_eq : std::false_type {};
template<class A, class B> struct has_eq<A, B, std::void_t<decltype(bool(std::declval<const A&>() == std::declval<const B&>()))>> : std::true_type {};
template<class A, class B, class = void> struct has_lt : std::false_type {};
template<class A, class B> struct has_lt<A, B, std::void_t<decltype(bool(std::declval<const A&>() < std::declval<const B&>()))>> : std::true_type {};

template<class Y> static const T& under(const Y& w) { if constexpr (V_::wrapper) { const T& t = w; if (std::addressof(t) != std::addressof(w.m)) fail("the conversion refers to something else than the member"); return t; } else return w; }
static int code(const W& w) { return V_::code(under(w)); }
static W mkw(int c) { if constexpr (V_::wrapper) { if constexpr (std::is_move_constructible_v<T>) return W(V_::make(c)); } else return V_::make(c); }
template<int N, class F> static void at(nest<N>& o, int d, F&& f) { // the option at depth d
    if (N == d) { f(std::integral_constant<int, N>{}, o); return; }
    if constexpr (N > 1) at<N - 1>(*o, d, f); else fail("no such depth");
}
template<int N> static W& raw(nest<N>& o) { if constexpr (N == 1) return o.get_unchecked(); else return raw<N - 1>(o.get_unchecked()); }
template<int N> static const W& craw(const nest<N>& o) { if constexpr (N == 1) return o.get_unchecked(); else return craw<N - 1>(o.get_unchecked()); }
static constexpr std::uintmax_t K = opt::option_traits<W>::max_level;
template<int N> static int state(nest<N>& o, const O& whole) {
    const bool h = o.has_value();
    if (bool(std::as_const(o)) != h || (o != opt::none) != h || (o.ptr_or_null() != nullptr) != h) fail("observers disagree");
    if (!h) {
        if (N > int(K)) return 20 + N;
        if constexpr (PLAIN && V_::writable) if (code(craw<D>(whole)) != 10 + N) fail("empty, but the payload does not have the designated value");
        return 10 + N;
    }
    if constexpr (N == 1) return code(*o); else return state<N - 1>(*o, whole);
}
static O& slot(int i) { alignas(O) static unsigned char buf[2][sizeof(O)]; return *std::launder(reinterpret_cast<O*>(buf[i - 1])); }
template<class F> static void remake(int i, F&& f) { O& o = slot(i); void* m = &o; o.~O(); std::memset(m, 0x5A, sizeof(O)); f(m); }
template<int N> static nest<N> some(int c) { if constexpr (N == 0) return mkw(c); else return nest<N>(std::in_place, some<N - 1>(c)); }
template<int N> static nest<N> as(int c) { if constexpr (N == 0) return mkw(c); else if constexpr (N <= int(K)) { auto in = as<N - 1>(c); return opt::as_option(in); } else return nest<N>(std::in_place, as<N - 1>(c)); }

template<class V_, class W = typename V_::W, class T = typename V_::T> static void wrap(int c) {
    if constexpr (V_::wrapper) {
        static_assert(std::is_same_v<decltype(W::m), T> && std::is_default_constructible_v<W> == std::is_default_constructible_v<T> && std::is_copy_constructible_v<W> == COPY && std::is_trivially_copyable_v<W> == std::is_trivially_copyable_v<T>);
        static_assert(sizeof(W) == sizeof(T) && alignof(W) == alignof(T));
        static_assert(std::is_convertible_v<W&, T&> && std::is_convertible_v<const W&, const T&> && std::is_convertible_v<W&&, T&&> && !std::is_convertible_v<const W&, T&> && !std::is_convertible_v<W&&, T&>);
        T a = V_::make(c);
        W w(std::move(a));
        if (V_::code(w.m) != c) fail("made from an rvalue");
        add(V_::code(a));
        if constexpr (std::is_move_assignable_v<T>) { W y(V_::make(1)); T e = V_::make(c); y = std::move(e); if (code(y) != c) fail("assigned an rvalue"); add(V_::code(e)); } else add(V_::code(a));
        T& r = w; const T& cr = std::as_const(w); T&& rr = std::move(w);
        if (std::addressof(r) != std::addressof(w.m) || std::addressof(cr) != std::addressof(w.m) || std::addressof(rr) != std::addressof(w.m)) fail("a conversion refers to something else than the member");
        if constexpr (COPY) {
            const T b = V_::make(c);
            W x(b); W y = b; W z(w);
            if (V_::code(x.m) != c || V_::code(y.m) != c || V_::code(z.m) != c || V_::code(b) != c || code(w) != c) fail("made from an lvalue");
            if constexpr (std::is_copy_assignable_v<T>) { x = V_::make(1); y = x; if (code(x) != 1 || code(y) != 1) fail("assigned"); x = b; if (code(x) != c) fail("assigned an lvalue"); z = V_::make(2); z = w; if (code(z) != c || code(w) != c) fail("assigned a wrapper"); }
        }
        W m(std::move(w)); if (code(m) != c) fail("moved");
        if constexpr (std::is_move_assignable_v<T>) { W n(V_::make(1)); n = std::move(m); if (code(n) != c) fail("move assigned"); T t = std::move(n); add(V_::code(t)); }
        else add(code(m));
        if constexpr (std::is_default_constructible_v<T>) { W d; T t{}; if constexpr (has_eq<T, T>::value) if (!(under(d) == t)) fail("the default is not the value-initialised one"); }
    } else { T a = V_::make(c); T b = std::move(a); add(V_::code(a)); if constexpr (std::is_move_assignable_v<T>) { T e = V_::make(1); e = std::move(b); } add(V_::code(b)); add(V_::code(V_::make(c))); }
}
template<class V_, int D, class W = typename V_::W, class T = typename V_::T, class O = nest<D>> static int go(const char* path) {
    for (int i : {1, 2}) ::new (&slot(i)) O;
    unsigned tick = 0;
    for (auto& L : read_script(path)) {
        res.clear(); ran = true; ev = {}; ++tick;
        const std::string& op = L.op; auto is = [&](const char* s) { return op == s; };
        auto A = [&](std::size_t k) { return int(L.a.at(k)); };
        if (is("wrap")) wrap<V_>(A(0));
        else {
        const int i = A(0); O& o = slot(i); const int v = L.a.size() > 1 ? A(1) : 0;
        auto other = [&]() -> O& { return slot(A(1)); };
        auto inner = [&](auto&& f) { at<D>(o, 1, [&](auto n, auto& p) { if constexpr (decltype(n)::value == 1) f(p); else (void)p; }); };
        if (is("ctor_none")) remake(i, [&](void* m) { if (v == 1) ::new (m) O; else if (v == 2) ::new (m) O(opt::none); else ::new (m) O{}; });
        else if (is("ctor_value")) remake(i, [&](void* m) { if (tick & 1) ::new (m) O(some<D - 1>(v)); else { auto x = some<D - 1>(v); ::new (m) O(std::move(x)); } });
        else if (is("ctor_under")) remake(i, [&](void* m) { if constexpr (D == 1) { if (tick & 1) ::new (m) O(V_::make(v)); else ::new (m) O(std::in_place, V_::make(v)); } else if constexpr (D == 2) ::new (m) O(std::in_place, std::in_place, V_::make(v)); else ::new (m) O(std::in_place, std::in_place, std::in_place, V_::make(v)); });
        else if (is("ctor_copy")) { if constexpr (COPY) { const O& s = other(); remake(i, [&](void* m) { ::new (m) O(s); }); } else ran = false; }
        else if (is("ctor_move")) { O& s = other(); remake(i, [&](void* m) { ::new (m) O(std::move(s)); }); }
        else if (is("copy_assign")) { if constexpr (COPY) { const O& s = other(); if (&(o = s) != &o) fail("not itself"); } else ran = false; }
        else if (is("move_assign")) { if (&(o = std::move(other())) != &o) fail("not itself"); }
        else if (is("swap")) { if (tick & 1) o.swap(other()); else { using std::swap; swap(o, other()); } }
        else if (is("reset")) at<D>(o, v, [&](auto, auto& p) { p.reset(); });
        else if (is("assign_none")) at<D>(o, v, [&](auto, auto& p) { p = opt::none; });
        else if (is("emplace_default")) at<D>(o, v, [&](auto n, auto& p) { if constexpr (decltype(n)::value > 1) p.emplace(); else (void)p; });
        else if (is("emplace")) inner([&](auto& p) { auto& r = p.emplace(mkw(v)); if (std::addressof(r) != std::addressof(*p)) fail("emplace returned something else"); });
        else if (is("assign_value")) inner([&](auto& p) { if constexpr (COPY) { if (tick & 1) { const W x = mkw(v); p = x; if (code(x) != v) fail("the source changed"); return; } } p = mkw(v); });
        else if (is("assign_under")) inner([&](auto& p) { if constexpr (COPY) { if (tick & 1) { const T x = V_::make(v); p = x; if (V_::code(x) != v) fail("the source changed"); return; } } p = V_::make(v); });
        else if (is("take")) { O t = o.take(); add(state<D>(t, t)); }
        else if (is("write")) inner([&](auto& p) { *p = mkw(v); });
        else if (is("write_under")) inner([&](auto& p) { p.get() = V_::make(v); });
        else if (is("write_member")) inner([&](auto& p) { if constexpr (V_::wrapper) p->m = V_::make(v); else *p = V_::make(v); });
        else if (is("write_unchecked")) { raw<D>(o) = mkw(v); }
        else if (is("read_unchecked")) add(code(craw<D>(o)));
        else if (is("as_option")) { if constexpr (PLAIN) remake(i, [&](void* m) { ::new (m) O(as<D>(v)); }); else ran = false; }
        else if (is("read")) inner([&](auto& p) { switch (v) { case 1: { T& t = *p; add(V_::code(t)); break; } case 2: { const T& t = *std::as_const(p); add(V_::code(t)); break; } case 3: { T&& t = *std::move(p); add(V_::code(t)); break; } default: { const T&& t = *std::move(std::as_const(p)); add(V_::code(t)); } } });
        else if (is("take_out")) inner([&](auto& p) { T t = static_cast<T&&>(*std::move(p)); add(V_::code(t)); });
        else if (is("value_or")) { if constexpr (COPY) inner([&](auto& p) { if (tick & 1) { W x = std::as_const(p).value_or(mkw(v)); add(code(x)); } else { T x = p.value_or(V_::make(v)); add(V_::code(x)); } }); else ran = false; }
        else if (is("eq_value")) inner([&](auto& p) { bool done = false; const auto& c = p;
            if constexpr (has_eq<W, T>::value) { const T x = V_::make(v); const bool b = c == x; if ((c != x) == b || (x == c) != b || (x != c) == b) fail("== and != disagree"); add(b); done = true; }
            else if constexpr (has_eq<W, W>::value) { const W x = mkw(v); const bool b = c == x; add(b); done = true; }
            if (!done) ran = false; });
        else if (is("lt_value")) inner([&](auto& p) { if constexpr (has_lt<W, T>::value) { const T x = V_::make(v); const auto& c = p; const bool b = c < x; if ((x > c) != b || (c >= x) == b || (x <= c) == b) fail("order is inconsistent"); add(b); } else { (void)p; ran = false; } });
        else if (is("eq_slot")) { if constexpr (has_eq<W, W>::value) { const O& a = o; const O& b = slot(v); const bool r = a == b; if ((a != b) == r || (b == a) != r) fail("== and != disagree"); add(r); } else ran = false; }
        else if (is("map")) inner([&](auto& p) { auto r = p.map([](W& w) { return code(w); }); if (r) add(*r); });
        else ran = false;
        }
        std::printf("{\"t\":[%d,%d],\"res\":[%s]%s", state<D>(slot(1), slot(1)), state<D>(slot(2), slot(2)), res.c_str(), ran ? "" : ",\"skip\":1");
        if (!err().empty()) std::printf(",\"err\":%s", js(err()).c_str());
        std::puts("}"); err().clear(); std::fflush(stdout);
    }
    for (int i : {1, 2}) std::destroy_at(&slot(i));
    std::printf("{\"end\":true,\"err\":%s}\n", js(live().empty() ? err() : err() + "objects are left").c_str());
    return 0;
}
int main(int, char** argv) { return go<V_, WD>(argv[1]); }
