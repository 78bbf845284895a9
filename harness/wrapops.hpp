// Conformance with spec/WrapOps.tla: what the operations of opt::sentinel, sentinel_f, member and enforce do to the value.
#pragma once
#include <opt/option.hpp>
#include <cstdio>
#include <functional>
#include <type_traits>
#include <utility>
#define FW(x) static_cast<decltype(x)>(x)
struct Src { int v = 7; bool gone = false; Src() = default; explicit Src(int x) : v(x) {} };
struct Src2 { int v = 3; bool gone = false; };
struct Other {};
// counts the copies made of what ended up in it; a source that is moved from says so
struct Trk {
    int v = 0, c = 0; bool b = true, gone = false;
    Trk() = default;
    explicit Trk(int x) : v(x) {}
    Trk(const Trk& o) : v(o.v), c(o.c + 1), b(o.b) {}
    Trk(Trk&& o) noexcept : v(o.v), c(o.c), b(o.b) { o.gone = true; }
    Trk(const Src& s) : v(s.v), c(1) {}
    Trk(Src&& s) noexcept : v(s.v) { s.gone = true; }
    Trk(const Src& s, const Src2& t) : v(s.v + t.v), c(11) {}
    Trk(Src&& s, const Src2& t) : v(s.v + t.v), c(1) { s.gone = true; }
    Trk(const Src& s, Src2&& t) : v(s.v + t.v), c(10) { t.gone = true; }
    Trk(Src&& s, Src2&& t) noexcept : v(s.v + t.v) { s.gone = true; t.gone = true; }
    Trk& operator=(const Trk& o) { v = o.v; c = o.c + 1; b = o.b; gone = false; return *this; }
    Trk& operator=(Trk&& o) noexcept { v = o.v; c = o.c; b = o.b; gone = false; o.gone = true; return *this; }
    Trk& operator=(const Src& s) { v = s.v; c = 1; gone = false; return *this; }
    Trk& operator=(Src&& s) noexcept { v = s.v; c = 0; gone = false; s.gone = true; return *this; }
    Trk& operator=(int x) { v = x; return *this; }          // a designated value
    friend bool operator==(const Trk& a, int x) { return a.v == x; }
};
struct CmpV { bool operator()(const Trk& t, int x) const { return t.v == x; } };
struct SetV { void operator()(Trk& t, int x) const { t.v = x; } };
template<> struct opt::option_traits<Trk> {
    static constexpr std::uintmax_t max_level = 2;
    static std::uintmax_t get_level(const Trk* t) noexcept { return t->v < 0 ? std::uintmax_t(-1 - t->v) : std::uintmax_t(-1); }
    static void set_level(Trk* t, std::uintmax_t l) noexcept { t->v = -1 - int(l); }
};
using W0 = opt::sentinel<Trk, -1, -2>; using W1 = opt::sentinel_f<Trk, CmpV, SetV, -1, -2>; using W2 = opt::member<Trk, &Trk::b>; using W3 = opt::enforce<Trk>;
template<int N> struct Wr; template<> struct Wr<0> { using type = W0; }; template<> struct Wr<1> { using type = W1; }; template<> struct Wr<2> { using type = W2; }; template<> struct Wr<3> { using type = W3; };
template<int N> using WT = typename Wr<N>::type;
inline const Trk& in(const Trk& t) { return t; }
// sources; told: copies * 1000 + moved-from sources (1: first, 2: second) * 100 + value
inline Trk src_t() { return Trk(5); }
inline Src src_s() { return {}; }
template<class W> W src_w() { return W(Trk(6)); }
template<class W> opt::option<W> src_o() { opt::option<W> o(std::in_place, Trk(6)); return o; }
inline int told(const Trk& t, bool g1, bool g2 = false) { return t.c * 1000 + (g1 ? 100 : 0) + (g2 ? 200 : 0) + t.v; }
inline bool gone(const Trk& t) { return t.gone; }
inline bool gone(const Src& t) { return t.gone; }
inline bool gone(const Src2& t) { return t.gone; }
template<class W> bool gone(const opt::option<W>& o) { return in(*o).gone; }
template<class C, class X, class F> int via(X x, F f) { Trk r = f(static_cast<C>(x)); bool g = gone(x); return told(r, g); }
template<class C, class D, class F> int via2(F f) { Src x; Src2 y; Trk r = f(static_cast<C>(x), static_cast<D>(y)); return told(r, x.gone, y.gone); }
// the result, without a copy
template<class W> Trk out(W&& w) { Trk& t = w; return std::move(t); }
template<class W> Trk out(opt::option<W>& o) { Trk& t = *o; return std::move(t); }
