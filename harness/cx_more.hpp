// Other specifications, one step in a constant expression each: Algebra, Structure (zip and pair parts), Iter, RefOption, Order, Access.
#pragma once
#include "cx.hpp"

namespace C {
// f called with x in the category named h; false: not for this type
template<bool COPY, class X, class F> constexpr bool in(unsigned long long h, X& x, F&& f) {
    if (h == hs("r")) { f(static_cast<X&&>(x)); return true; }
    if constexpr (COPY) {
        if (h == hs("l")) { f(x); return true; }
        if (h == hs("cl")) { f(static_cast<const X&>(x)); return true; }
        if (h == hs("cr")) { f(static_cast<const X&&>(x)); return true; }
    }
    return false;
}
#define CX_FWD(x) static_cast<decltype(x)&&>(x)

// ------------------------------------------------------------------ spec/Algebra.tla
struct Unrelated { int k; constexpr Unrelated() : k(3) {} };
template<class T> struct Algebra {
    using O = opt::option<T>;
    using P = PL<T>;
    static constexpr bool COPY = std::is_copy_constructible_v<T>;
    template<class A, class B> static constexpr void apply(unsigned long long op, A&& a, B&& b, Seen& z) {
        if (op == hs("or")) { O r(static_cast<A&&>(a) | static_cast<B&&>(b)); z.res = code(r); }
        else if (op == hs("and")) { O r(static_cast<A&&>(a) & static_cast<B&&>(b)); z.res = code(r); }
        else if (op == hs("xor")) { O r(static_cast<A&&>(a) ^ static_cast<B&&>(b)); z.res = code(r); }
        else z.known = 0;
    }
    static constexpr Seen step(const Row& r) {
        Seen z;
        O s[3] = {mk<T>(r.s[0]), mk<T>(r.s[1]), mk<T>(r.s[2])};
        const Parts p(r.name);
        one(r, p, s, z);
        for (int k = 0; k < 3; ++k) z.t[k] = code(s[k]);
        return z;
    }
    static constexpr void one(const Row& r, const Parts& p, O* s, Seen& z) {
        O& o = s[r.a[0] > 0 ? r.a[0] - 1 : 0];
        bool ran = true;
        if (p[0] == hs("orv")) {
            T x(P::make(r.a[1]));
            ran = in<COPY>(p[1], o, [&](auto&& a) {
                auto f = [&](auto&& y) { T q(CX_FWD(a) | CX_FWD(y)); z.res = P::code(q); };
                if (p[2] == hs("r")) f(std::move(x));
                else if constexpr (COPY) { f(static_cast<const T&>(x)); if (P::code(x) != r.a[1]) z.ok = 0; }
            });
        } else if (p[0] == hs("oreq") && p[1] == hs("none")) { O& q = (o |= opt::none); z.res = &q == &o ? r.a[0] : -1; }
        else if (p[0] == hs("oreq")) ran = in<COPY>(p[1], s[r.a[1] - 1], [&](auto&& b) { O& q = (o |= CX_FWD(b)); z.res = &q == &o ? r.a[0] : -1; });
        else if (p[0] == hs("oreqv")) {
            T x(P::make(r.a[1]));
            auto f = [&](auto&& y) { O& q = (o |= CX_FWD(y)); z.res = &q == &o ? r.a[0] : -1; };
            if (p[1] == hs("r")) f(std::move(x));
            else if constexpr (COPY) f(static_cast<const T&>(x));
        } else if (p[0] == hs("andx")) {
            const opt::option<Unrelated> u = r.a[0] ? opt::option<Unrelated>{Unrelated{}} : opt::option<Unrelated>{};
            ran = in<COPY>(p[1], s[r.a[1] - 1], [&](auto&& b) { O q(u & CX_FWD(b)); z.res = code(q); });
        } else if (p[1] == hs("chain")) {
            if constexpr (COPY) {
                const O &a = s[0], &b = s[1], &c = s[2];
                if (p[2] == hs("l")) z.res = code(O(p[0] == hs("or") ? a | b | c : p[0] == hs("and") ? a & b & c : a ^ b ^ c));
                else z.res = code(O(p[0] == hs("or") ? a | (b | c) : p[0] == hs("and") ? a & (b & c) : a ^ (b ^ c)));
            }
        } else if (p[1] == hs("none")) ran = in<COPY>(p[3], o, [&](auto&& a) { if (p[2] == hs("l")) apply(p[0], O(), CX_FWD(a), z); else apply(p[0], CX_FWD(a), O(opt::none), z); });
        else ran = in<COPY>(p[1], o, [&](auto&& a) { if (!in<COPY>(p[2], s[r.a[1] - 1], [&](auto&& b) { apply(p[0], CX_FWD(a), CX_FWD(b), z); })) z.known = 0; });
        if (!ran) z.known = 0;
    }
};

// ------------------------------------------------------------------ spec/Structure.tla, part zip
template<class T> struct Box { int c; constexpr explicit Box(const T& x) : c(0) { T y(x); c = PL<T>::code(y); } constexpr explicit Box(T&& x) : c(0) { T y(std::move(x)); c = PL<T>::code(y); } };
template<class T> struct BoxM { int c; constexpr explicit BoxM(T&& x) : c(0) { T y(std::move(x)); c = PL<T>::code(y); } };
template<class T> struct Zip {
    using O = opt::option<T>;
    using P = PL<T>;
    static constexpr bool COPY = std::is_copy_constructible_v<T>;
    template<class... A> static constexpr void zip(bool with, Seen& z, A&&... a) {
        if (!with) {
            auto r = opt::zip(static_cast<A&&>(a)...);
            if (!r.has_value()) z.res = 0;
            else { z.res.n = 0; std::apply([&](auto&... x) { (z.res.add(P::code(x)), ...); }, r.get()); }
        } else {
            int calls = 0;
            Res v{};
            auto r = opt::zip_with([&](std::conditional_t<true, T, A>... x) { ++calls; (v.add(P::code(x)), ...); return calls * 100L; }, static_cast<A&&>(a)...);
            z.res = calls;
            for (int k = 0; k < v.n; ++k) z.res.add(v.v[k]);
            if (r.has_value() != (calls > 0) || (r && *r != 100)) z.ok = 0;
        }
    }
    static constexpr Seen step(const Row& r) {
        Seen z;
        O s[3] = {mk<T>(r.s[0]), mk<T>(r.s[1]), mk<T>(r.s[2])};
        const Parts p(r.name);
        if (!one(r, p, s, z)) z.known = 0;
        for (int k = 0; k < 3; ++k) z.t[k] = code(s[k]);
        return z;
    }
    static constexpr bool one(const Row& r, const Parts& p, O* s, Seen& z) {
        const bool with = p[0] == hs("zipwith");
        bool ran = true;
        auto S = [&](int k) -> O& { return s[r.a[k] > 0 ? r.a[k] - 1 : 0]; };
        if (p[0] == hs("zip0")) { z.res = opt::zip().has_value(); return true; }
        if (p[0] == hs("roundtrip")) {
            if constexpr (COPY) { auto u = opt::unzip(opt::zip(static_cast<const O&>(S(0)), S(1))); z.res = code(std::get<0>(u)); z.res.add(code(std::get<1>(u))); }
            return true;
        }
        if (p[0] == hs("cast")) {
            using B = std::conditional_t<COPY, Box<T>, BoxM<T>>;
            return in<COPY>(p[1], S(0), [&](auto&& a) { auto q = opt::option_cast<B>(CX_FWD(a)); z.res = q ? q->c : 0; });
        }
        if (p.n == 2) return in<COPY>(p[1], S(0), [&](auto&& a) { zip(with, z, CX_FWD(a)); });
        if (p[0] == hs("ziplook")) return in<true>(p[1], S(0), [&](auto&& a) { ran = in<true>(p[2], S(1), [&](auto&& b) {
            int calls = 0; Res v{};
            opt::zip_with([&](auto&&... x) { ++calls; (v.add(P::code(x)), ...); }, CX_FWD(a), CX_FWD(b));
            z.res = calls;
            for (int k = 0; k < v.n; ++k) z.res.add(v.v[k]);
        }); }) && ran;
        if (p[0] == hs("zipref")) return in<true>(p[1], S(0), [&](auto&& a) { ran = in<true>(p[2], S(1), [&](auto&& b) {
            int calls = 0; Res v{};
            auto q = opt::zip_with([&](auto&& x, auto&& y) -> decltype(y) { ++calls; v.add(P::code(x)).add(P::code(y)); return CX_FWD(y); }, CX_FWD(a), CX_FWD(b));
            z.res = calls;
            for (int k = 0; k < v.n; ++k) z.res.add(v.v[k]);
            if (q.has_value() != (calls > 0) || (q.has_value() && std::addressof(q.get()) != std::addressof(b.get()))) z.ok = 0;
        }); }) && ran;
        if (p.n == 3) return in<COPY>(p[1], S(0), [&](auto&& a) { ran = in<COPY>(p[2], S(1), [&](auto&& b) { zip(with, z, CX_FWD(a), CX_FWD(b)); }); }) && ran;
        if (p.n == 4) {
            auto two = [](unsigned long long c, O& o, auto&& f) { if (c == hs("r")) f(std::move(o)); else if constexpr (COPY) f(static_cast<const O&>(o)); else return false; return true; };
            return two(p[1], S(0), [&](auto&& a) { ran &= two(p[2], S(1), [&](auto&& b) { ran &= two(p[3], S(2), [&](auto&& c) { zip(with, z, CX_FWD(a), CX_FWD(b), CX_FWD(c)); }); }); }) && ran;
        }
        return false;
    }
};

// ------------------------------------------------------------------ spec/Structure.tla, part pair
template<class X> struct Pair;
template<class Q> struct PairOf {
    using O = opt::option<Q>;
    using A = std::tuple_element_t<0, Q>; using B = std::tuple_element_t<1, Q>;
    static constexpr bool COPY = std::is_copy_constructible_v<A> && std::is_copy_constructible_v<B>, SAME = std::is_same_v<A, B>;
    template<class F> static constexpr void pick(int k, F&& f) { if (k == 1) f(std::integral_constant<std::size_t, 0>{}); else f(std::integral_constant<std::size_t, 1>{}); }
    static constexpr O make(const Row& r) {
        if (r.s[0] == 0) return O();
        return O(std::in_place, Q{PL<A>::make(r.s[0]), PL<B>::make(r.s[1])});
    }
    static constexpr Seen step(const Row& r) {
        Seen z;
        O o(make(r));
        const Parts p(r.name);
        if (!one(r, p, o, z)) z.known = 0;
        if (o.has_value()) { z.t[0] = PL<A>::code(std::get<0>(o.get())); z.t[1] = PL<B>::code(std::get<1>(o.get())); }
        return z;
    }
    static constexpr bool one(const Row& r, const Parts& p, O& o, Seen& z) {
        if (p[0] == hs("unzip")) return in<COPY>(p[1], o, [&](auto&& x) {
            auto q = opt::unzip(CX_FWD(x));
            auto& a = std::get<0>(q); auto& b = std::get<1>(q);
            z.res = a ? PL<A>::code(a.get()) : 0; z.res.add(b ? PL<B>::code(b.get()) : 0);
        });
        if (p[0] == hs("get") || p[0] == hs("gett")) return in<true>(p[1], o, [&](auto&& x) { pick(r.a[0], [&](auto I) {
            using E = std::tuple_element_t<I, Q>;
            auto fin = [&](auto&& q) { z.res = q.has_value() ? PL<E>::code(q.get()) : 0; z.res.add(q.has_value() && std::addressof(q.get()) == std::addressof(std::get<I>(o.get()))); };
            if constexpr (!SAME) { if (p[0] == hs("gett")) { fin(opt::get<E>(CX_FWD(x))); return; } }
            fin(opt::get<I>(CX_FWD(x)));
        }); });
        if (p[0] == hs("getwrite")) { pick(r.a[0], [&](auto I) { auto q = opt::get<I>(o); z.res = q.has_value(); if (q) *q = PL<std::tuple_element_t<I, Q>>::make(r.a[1]); }); return true; }
        if (p[0] == hs("gettake")) { pick(r.a[0], [&](auto I) { using E = std::tuple_element_t<I, Q>; auto q = opt::get<I>(std::move(o)); if (q) { E y(std::move(q).get()); z.res = PL<E>::code(y); } else z.res = 0; }); return true; }
        if (p[0] == hs("roundtrip")) {
            if constexpr (COPY) {
                auto u = opt::unzip(o);
                auto q = opt::zip(std::get<0>(u), std::get<1>(u));
                if (q) { z.res = PL<A>::code(std::get<0>(*q)); z.res.add(PL<B>::code(std::get<1>(*q))); } else z.res = 0;
            }
            return true;
        }
        return false;
    }
};

// ------------------------------------------------------------------ spec/Iter.tla
template<class T> struct Iter {
    using O = opt::option<T>;
    using P = PL<std::remove_cv_t<T>>;
    using I = typename O::iterator; using K = typename O::const_iterator;
    static constexpr bool WR = !std::is_const_v<T> && std::is_move_assignable_v<T>;
    struct All { O o; I a{}, b{}; K k{}; };
    static constexpr I at(O& o, int p) { return p < 0 ? I{} : p == 0 ? o.begin() : o.end(); }
    static constexpr K at(const O& o, int p) { return p < 0 ? K{} : p == 0 ? o.begin() : o.end(); }
    template<class X> static constexpr int pos(All& q, X x, Seen& z) {
        const bool nul = x == X{};
        if (!q.o.has_value()) { if (!nul || x != X{}) z.ok = 0; return -1; }
        if (nul) return -1;
        X b0 = q.o.begin(), e0 = q.o.end();
        if (x == b0) { if (x == e0 || std::addressof(*x) != std::addressof(q.o.get())) z.ok = 0; return 0; }
        return x == e0 ? 1 : 7;
    }
    template<class F> static constexpr void with(unsigned long long n, All& q, F&& f) { if (n == hs("a")) f(q.a); else if (n == hs("b")) f(q.b); else f(q.k); }
    template<class F> static constexpr void with2(const Parts& p, All& q, Seen& z, F&& f) {
        with(p[1], q, [&](auto& x) { with(p[2], q, [&](auto& y) { if constexpr (std::is_same_v<decltype(x), K&> || std::is_same_v<decltype(y), I&>) f(x, y); else z.known = 0; }); });
    }
    static constexpr Seen step(const Row& r) {
        Seen z;
        All q{r.s[0] ? O(std::in_place, P::make(r.s[0])) : O()};
        q.a = at(q.o, r.s[1]); q.b = at(q.o, r.s[2]); q.k = at(static_cast<const O&>(q.o), r.s[3]);
        one(r, Parts(r.name), q, z);
        z.t[0] = code(q.o); z.t[1] = pos(q, q.a, z); z.t[2] = pos(q, q.b, z); z.t[3] = pos(q, q.k, z);
        return z;
    }
    static constexpr int code(O& o) { return o.has_value() ? P::code(o.get()) : 0; }
    static constexpr void one(const Row& r, const Parts& p, All& q, Seen& z) {
        const int A = r.a[0];
        O& o = q.o;
        auto add = [&](int x) { z.res.add(x); };
        auto check = [&](bool b) { if (!b) z.ok = 0; };
        switch (p[0]) {
        case hs("emplace"): o.emplace(P::make(A)); q.a = q.b = I{}; q.k = K{}; break;
        case hs("reset"): o.reset(); q.a = q.b = I{}; q.k = K{}; break;
        case hs("assign"): if constexpr (WR) o = P::make(A); else z.known = 0; break;
        case hs("begin"): if (p[1] == hs("a")) q.a = o.begin(); else if (p[1] == hs("b")) q.b = o.begin(); else q.k = static_cast<const O&>(o).begin(); break;
        case hs("end"): if (p[1] == hs("a")) q.a = o.end(); else if (p[1] == hs("b")) q.b = o.end(); else q.k = static_cast<const O&>(o).end(); break;
        case hs("def"): with(p[1], q, [&](auto& x) { using X = std::decay_t<decltype(x)>; X y{}; x = y; }); break;
        case hs("copy"): with2(p, q, z, [&](auto& x, auto& y) { x = y; }); break;
        case hs("preinc"): with(p[1], q, [&](auto& x) { check(&++x == &x); }); break;
        case hs("predec"): with(p[1], q, [&](auto& x) { check(&--x == &x); }); break;
        case hs("postinc"): with(p[1], q, [&](auto& x) { auto y = x++; add(pos(q, y, z)); }); break;
        case hs("postdec"): with(p[1], q, [&](auto& x) { auto y = x--; add(pos(q, y, z)); }); break;
        case hs("pluseq"): with(p[1], q, [&](auto& x) { check(&(x += A) == &x); }); break;
        case hs("minuseq"): with(p[1], q, [&](auto& x) { check(&(x -= A) == &x); }); break;
        case hs("advance"): with(p[1], q, [&](auto& x) { auto y = std::next(x, A); std::advance(x, A); check(y == x); }); break;
        case hs("plus"): with(p[1], q, [&](auto& x) { const auto& c = x; auto y = c + A; add(pos(q, y, z)); }); break;
        case hs("plusl"): with(p[1], q, [&](auto& x) { const auto& c = x; auto y = A + c; add(pos(q, y, z)); }); break;
        case hs("minus"): with(p[1], q, [&](auto& x) { const auto& c = x; auto y = c - A; add(pos(q, y, z)); }); break;
        case hs("deref"): with(p[1], q, [&](auto& x) { const auto& c = x; check(std::addressof(*c) == std::addressof(o.get())); add(P::code(*c)); }); break;
        case hs("arrow"): with(p[1], q, [&](auto& x) { const auto& c = x; check(c.operator->() == std::addressof(o.get())); add(P::code(*c.operator->())); }); break;
        case hs("index"): with(p[1], q, [&](auto& x) { const auto& c = x; check(std::addressof(c[A]) == std::addressof(o.get())); add(P::code(c[A])); }); break;
        case hs("write"): if constexpr (WR) { I& x = p[1] == hs("a") ? q.a : q.b; *x = P::make(A); } else z.known = 0; break;
        case hs("writeat"): if constexpr (WR) { I& x = p[1] == hs("a") ? q.a : q.b; x[A] = P::make(r.a[1]); } else z.known = 0; break;
        case hs("dist"): with2(p, q, z, [&](auto& x, auto& y) { using X = std::decay_t<decltype(x)>; add(int(x - y)); check(std::distance(X(y), x) == x - y); }); break;
        case hs("compare"): with2(p, q, z, [&](auto& x, auto& y) { const auto& c = x; add(c == y); add(c != y); add(c < y); add(c <= y); add(c > y); add(c >= y); }); break;
        case hs("address"): with(p[1], q, [&](auto& x) { add(pos(q, x, z)); }); break;
        case hs("between"): with2(p, q, z, [&](auto& x, auto& y) { K e = y; int n = 0; for (K i = x; i != e && n < 3; ++i, ++n) add(P::code(*i)); check(n == std::distance(K(x), e)); }); break;
        case hs("each"): each(p[1], r, o, z); break;
        default: z.known = 0;
        }
    }
    static constexpr void each(unsigned long long w, const Row& r, O& o, Seen& z) {
        int n = 0;
        auto add = [&](int x) { z.res.add(x); };
        if (w == hs("write")) { if constexpr (WR) for (auto& x : o) { x = P::make(r.a[0]); if (++n > 2) break; } else z.known = 0; }
        else if (w == hs("for") || w == hs("views") || w == hs("copy")) for (auto& x : o) { add(P::code(x)); if (++n > 2) break; }
        else if (w == hs("cfor")) for (const auto& x : static_cast<const O&>(o)) { add(P::code(x)); if (++n > 2) break; }
        else if (w == hs("less")) for (auto x = o.begin(); x < o.end() && n < 3; ++x, ++n) { add(P::code(*x)); if (!(o.end() > x) || x >= o.end() || o.end() <= x) z.ok = 0; }
        else if (w == hs("back")) { auto x = o.end(); while (x != o.begin() && n < 3) { --x; ++n; add(P::code(*x)); } }
        else if (w == hs("reverse")) { std::reverse_iterator<I> x(o.end()), e(o.begin()); for (; x != e && n < 3; ++x, ++n) add(P::code(*x)); }
        else z.known = 0;
    }
};

// ------------------------------------------------------------------ spec/RefOption.tla
struct RTr { // no copies of objects: they would be seen in their values
    int v = 1;
    constexpr RTr() = default;
    constexpr RTr(const RTr& o) : v(o.v + 70) {}
    constexpr RTr& operator=(const RTr& o) { v = o.v + 70; return *this; }
    friend constexpr bool operator==(const RTr& a, const RTr& b) { return a.v == b.v; }
    friend constexpr bool operator!=(const RTr& a, const RTr& b) { return a.v != b.v; }
    friend constexpr bool operator<(const RTr& a, const RTr& b) { return a.v < b.v; }
    friend constexpr bool operator>(const RTr& a, const RTr& b) { return a.v > b.v; }
    friend constexpr bool operator<=(const RTr& a, const RTr& b) { return a.v <= b.v; }
    friend constexpr bool operator>=(const RTr& a, const RTr& b) { return a.v >= b.v; }
};
struct ROther { long pad = 3; };
struct RBase : RTr {};
struct RDer : ROther, RBase {};
constexpr int rval(int x) { return x; }
constexpr int rval(const RTr& x) { return x.v; }
constexpr void rset(int& x, int k) { x = k; }
constexpr void rset(RTr& x, int k) { x.v = k; }
template<class E, class R, class CR, int NOBJ = 2> struct RefOpt {
    using O = opt::option<R>; using OC = opt::option<CR>;
    static constexpr bool RV = std::is_rvalue_reference_v<R>, CONSTR = std::is_const_v<std::remove_reference_t<R>>;
    struct All {
        E obj[NOBJ] = {}; O ab[2]; OC c;
        template<class X> constexpr int which(const X& x) const {
            for (int i = 0; i < NOBJ; ++i) if (std::addressof(static_cast<const X&>(obj[i])) == std::addressof(x)) return i + 1;
            return -1;
        }
        template<class OO> constexpr int idx(const OO& o, Seen& z) const {
            auto* q = o.ptr_or_null();
            const int p = q ? which(*q) : 0;
            if ((p != 0) != o.has_value() || (p != 0) != bool(o) || (p == 0) != (o == opt::none) || (o.begin() != o.end()) != o.has_value()) z.ok = 0;
            if (p > 0 && (which(o.get()) != p || which(*o) != p || which(o.value()) != p || which(o.get_unchecked()) != p || which(*o.begin()) != p || which(*o.operator->()) != p || which(o.value_or_throw()) != p)) z.ok = 0;
            return p;
        }
    };
    static constexpr Seen step(const Row& r) {
        Seen z;
        All q;
        for (int n = 0; n < NOBJ; ++n) rset(q.obj[n], r.s[3 + n]);
        for (int n = 0; n < 2; ++n) if (r.s[n]) q.ab[n].emplace(static_cast<R>(q.obj[r.s[n] - 1]));
        if (r.s[2]) q.c.emplace(static_cast<R>(q.obj[r.s[2] - 1]));
        int over = -1;
        one(r, q, z, over);
        const int i = r.a[0] > 0 ? r.a[0] : 1;
        z.t[0] = q.idx(q.ab[0], z); z.t[1] = q.idx(q.ab[1], z); z.t[2] = q.idx(q.c, z);
        if (over != -1) z.t[i - 1] = over;
        for (int n = 0; n < NOBJ; ++n) z.t[3 + n] = rval(q.obj[n]);
        return z;
    }
    static constexpr void one(const Row& r, All& q, Seen& z, int& over) {
        const int i = r.a[0] > 0 ? r.a[0] : 1, x = r.a[1] > 0 ? r.a[1] : 1;
        const int xo = x <= NOBJ ? x : 1, io = i <= NOBJ ? i : 1;
        O& o = q.ab[(i <= 2 ? i : 1) - 1]; O& p = q.ab[i == 1 ? 1 : 0]; OC& c = q.c;
        const O& co = o;
        auto ref = [&](int n) -> R { return static_cast<R>(q.obj[n - 1]); };
        auto idx = [&](const auto& y) { return q.idx(y, z); };
        auto made = [&](const O& y) { over = idx(y); };
        auto is_k = [&](const auto& e) { return rval(e) == x; };
        auto check = [&](bool b) { if (!b) z.ok = 0; };
        auto fwd = [&](O& y) -> decltype(auto) { if constexpr (RV) return static_cast<O&&>(y); else return static_cast<const O&>(y); };
        switch (hs(r.name)) {
        case hs("ctor_value"): made(O(ref(xo))); break;
        case hs("ctor_in_place"): made(O(std::in_place, ref(xo))); break;
        case hs("make_option"): made(O(opt::make_option<R>(ref(xo)))); break;
        case hs("ctor_default"): made(O()); break;
        case hs("ctor_none"): made(O(opt::none)); break;
        case hs("ctor_copy"): made(O(static_cast<const O&>(p))); break;
        case hs("ctor_move"): made(O(static_cast<O&&>(p))); break;
        case hs("assign_value"): check(&(o = ref(xo)) == &o); break;
        case hs("emplace"): check(q.which(o.emplace(ref(xo))) == xo); break;
        case hs("try_emplace"): z.res = q.which(o.try_emplace(ref(xo))); break;
        case hs("reset"): o.reset(); break;
        case hs("assign_none"): o = opt::none; break;
        case hs("assign_braces"): o = {}; break;
        case hs("assign_copy"): o = p; break;
        case hs("assign_const"): o = static_cast<const O&>(p); break;
        case hs("assign_move"): o = static_cast<O&&>(p); break;
        case hs("self_copy"): { O& s = o; o = s; break; }
        case hs("self_move"): { O& s = o; o = static_cast<O&&>(s); break; }
        case hs("self_swap"): { O& s = o; o.swap(s); break; }
        case hs("inspect"): { int n = 0, w = 0; o.inspect([&](auto&& e) { ++n; w = q.which(e); }); check(n == int(o.has_value()) && (!n || w == idx(o))); break; }
        case hs("swap"): case hs("opt_swap"): case hs("adl_swap"): q.ab[0].swap(q.ab[1]); break;
        case hs("take"): { O t = o.take(); z.res = idx(t); break; }
        case hs("take_if"): { O t = o.take_if(is_k); z.res = idx(t); break; }
        case hs("take_into_other"): p = o.take(); break;
        case hs("or_assign"): o |= p; break;
        case hs("or_assign_value"): if constexpr (!RV) o |= ref(xo); break;
        case hs("c_ctor_copy"): if constexpr (RV) { OC t(static_cast<O&&>(o)); c = t; } else { OC t(static_cast<const O&>(o)); c = OC(t); } break;
        case hs("c_ctor_move"): { OC t(static_cast<O&&>(o)); c = static_cast<OC&&>(t); break; }
        case hs("c_assign_copy"): if constexpr (RV) c = static_cast<O&&>(o); else c = o; break;
        case hs("c_assign_move"): c = static_cast<O&&>(o); break;
        case hs("c_assign_const"): if constexpr (RV) c = static_cast<O&&>(o); else c = static_cast<const O&>(o); break;
        case hs("c_assign_value"): c = ref(io); break;
        case hs("c_ctor_value"): c = OC(ref(io)); break;
        case hs("c_emplace"): c.emplace(ref(io)); break;
        case hs("c_reset"): c.reset(); break;
        case hs("c_take"): { OC t = c.take(); check(idx(t) >= 0 && !c.has_value()); break; }
        case hs("c_assign_none"): c = opt::none; break;
        case hs("write_obj"): rset(q.obj[io - 1], x); break;
        case hs("cmp"): { auto& a = q.ab[0]; auto& b = q.ab[1]; z.res = a == b; z.res.add(a != b).add(a < b).add(a > b).add(a <= b).add(a >= b); break; }
        case hs("cmp_c"): { auto& a = q.ab[0]; z.res = a == c; z.res.add(a < c).add(c < a); check((a != c) != (a == c) && (a >= c) != (a < c) && (a <= c) != (c < a)); break; }
        case hs("cmp_value"): { const E& e = q.obj[xo - 1]; z.res = o == e; z.res.add(o < e); check((o != e) != (o == e) && (o >= e) != (o < e) && (e == o) == (o == e) && (e > o) == (o < e)); break; }
        case hs("value_or"): if constexpr (RV) { R e = static_cast<O&&>(o).value_or(ref(xo)); z.res = q.which(e); } else { R e = o.value_or(ref(xo)); z.res = q.which(e); R e2 = O(o).value_or(ref(xo)); check(q.which(e2) == z.res.v[0]); } break;
        case hs("or_value"): if constexpr (!RV) { R e = o | ref(xo); z.res = q.which(e); } break;
        case hs("or_else"): { int n = 0; O e = fwd(o).or_else([&] { ++n; return O(std::in_place, ref(xo)); }); check(n == (o.has_value() ? 0 : 1)); z.res = idx(e); break; }
        case hs("map_value"): { auto m = o.map([](const E& e) { return rval(e); }); z.res = m.value_or(0); break; }
        case hs("map_ref"): { O m = fwd(o).map([](R e) -> R { return static_cast<R>(e); }); z.res = idx(m); break; }
        case hs("and_then"): { O m = fwd(o).and_then([](R e) { return rval(e) == 1 ? O(std::in_place, static_cast<R>(e)) : O(); }); z.res = idx(m); break; }
        case hs("filter"): { O m = fwd(o).filter(is_k); z.res = idx(m); break; }
        case hs("has_value_and"): z.res = o.has_value_and(is_k); check(fwd(o).has_value_and(is_k) == bool(z.res.v[0])); break;
        case hs("value"): z.res = o.has_value() ? q.which(o.value()) : 0; if (o.has_value()) check(q.which(std::move(o).value_or_throw()) == z.res.v[0]); break;
        case hs("map_or"): z.res = o.map_or(9, [](const E& e) { return rval(e); }); z.res.add(o.map_or_else([] { return 8; }, [](const E& e) { return rval(e); })); break;
        case hs("or_l"): { O e = static_cast<const O&>(o) | static_cast<const O&>(p); z.res = idx(e); break; }
        case hs("or_r"): { O e = O(o) | O(p); z.res = idx(e); check(idx(o | O(p)) == z.res.v[0] && idx(O(o) | p) == z.res.v[0]); break; }
        case hs("and_l"): { O e = o & p; z.res = idx(e); break; }
        case hs("and_r"): { O e = O(o) & O(p); z.res = idx(e); break; }
        case hs("xor_l"): { O e = o ^ p; z.res = idx(e); break; }
        case hs("xor_r"): { O e = O(o) ^ O(p); z.res = idx(e); check(idx(o ^ O(p)) == z.res.v[0] && idx(O(o) ^ p) == z.res.v[0]); break; }
        case hs("zip"): { auto t = opt::zip(fwd(q.ab[0]), fwd(q.ab[1])); z.res = t.has_value() ? q.which(std::get<0>(*t)) : 0; z.res.add(t.has_value() ? q.which(std::get<1>(*t)) : 0); break; }
        case hs("count"): { int n[3] = {0, 0, 0}; for (auto&& e : q.ab[0]) { (void)e; ++n[0]; } const O& cb = q.ab[1]; for (auto&& e : cb) { (void)e; ++n[1]; } for (auto&& e : c) { (void)e; ++n[2]; } z.res = n[0]; z.res.add(n[1]).add(n[2]); break; }
        default:
            if constexpr (!CONSTR) {
                switch (hs(r.name)) {
                case hs("w_deref"): rset(*o, x); break;
                case hs("w_get"): rset(o.get(), x); break;
                case hs("w_value"): rset(o.value(), x); break;
                case hs("w_value_or_throw"): rset(o.value_or_throw(), x); break;
                case hs("w_arrow"): rset(*o.operator->(), x); break;
                case hs("w_ptr"): rset(*o.ptr_or_null(), x); break;
                case hs("w_begin"): rset(*o.begin(), x); break;
                case hs("w_range"): for (auto&& e : o) rset(e, x); break;
                case hs("w_inspect"): o.inspect([&](E& e) { rset(e, x); }); break;
                case hs("w_map"): (void)o.map([&](E& e) { rset(e, x); return 1; }); break;
                case hs("w_const_deref"): rset(*co, x); break;
                case hs("w_const_get"): rset(co.get(), x); break;
                case hs("w_const_value"): rset(co.value(), x); break;
                case hs("w_const_begin"): rset(*co.begin(), x); break;
                case hs("w_const_ptr"): rset(*co.ptr_or_null(), x); break;
                case hs("w_unchecked"): rset(o.get_unchecked(), x); break;
                case hs("w_value_or"): if constexpr (!RV) { E e{}; rset(co.value_or(e), x); } break;
                default: z.known = 0;
                }
            } else z.known = 0;
        }
    }
};

// ------------------------------------------------------------------ spec/Order.tla: s = the two contents, 4 compares to nothing
struct Half { // 4 is unordered
    int v;
    friend constexpr bool operator==(Half a, Half b) { return a.v == b.v && a.v != 4; }
    friend constexpr bool operator!=(Half a, Half b) { return !(a.v == b.v && a.v != 4); }
    friend constexpr bool operator<(Half a, Half b) { return a.v < b.v && b.v != 4; }
    friend constexpr bool operator>(Half a, Half b) { return a.v > b.v && a.v != 4; }
    friend constexpr bool operator<=(Half a, Half b) { return a.v <= b.v && b.v != 4; }
    friend constexpr bool operator>=(Half a, Half b) { return a.v >= b.v && a.v != 4; }
};
template<class T> struct OV { static constexpr T make(int k) { return T(k); } };
template<> struct OV<Half> { static constexpr Half make(int k) { return Half{k}; } };
template<> struct OV<std::array<int, 2>> { static constexpr std::array<int, 2> make(int k) { return {1, k}; } };
template<> struct OV<std::pair<int, short>> { static constexpr std::pair<int, short> make(int k) { return {k, short(k)}; } };
template<class TL, class TR> struct Order {
    template<class A, class B> static constexpr int cmp(std::string_view s, const A& a, const B& b) {
        if (s == "eq") return a == b;
        if (s == "ne") return a != b;
        if constexpr (!std::is_same_v<A, opt::none_t> || true) {
            if (s == "lt") return a < b;
            if (s == "le") return a <= b;
            if (s == "gt") return a > b;
            if (s == "ge") return a >= b;
        }
        return -1;
    }
    template<class T> static constexpr opt::option<T> ok(int k) { return k ? opt::option<T>(OV<T>::make(k)) : opt::option<T>(); }
    static constexpr Seen step(const Row& r) {
        Seen z;
        const std::string_view n(r.name), s = n.substr(3);
        const int a = r.s[0], b = r.s[1];
        if (n[0] == 'o' && n[1] == 'o') z.res = cmp(s, ok<TL>(a), ok<TR>(b));
        else if (n[0] == 'o' && n[1] == 'v') z.res = cmp(s, ok<TL>(a), OV<TR>::make(b));
        else if (n[0] == 'v') z.res = cmp(s, OV<TL>::make(a), ok<TR>(b));
        else if (n[0] == 'o') z.res = cmp(s, ok<TL>(a), opt::none);
        else z.res = cmp(s, opt::none, ok<TR>(b));
        return z;
    }
};

// ------------------------------------------------------------------ spec/Access.tla: arrays (seq), variants, pointers
template<class T, std::size_t N> struct Arr {
    using X = std::array<T, N>;
    using P = PL<T>;
    static constexpr std::size_t index_of(int i) { switch (i) { case 90: return std::size_t(1) << 31; case 91: return std::size_t(1) << 32; case 92: return (std::size_t(1) << 32) + 1; case 93: return std::size_t(1) << 63; case 94: return ~std::size_t(0); default: return std::size_t(i); } }
    template<std::size_t... K> static constexpr X make(const Row& r, std::index_sequence<K...>) { return X{P::make(r.s[K])...}; }
    static constexpr Seen step(const Row& r) {
        Seen z;
        X x(make(r, std::make_index_sequence<N>{}));
        const Parts p(r.name);
        const std::size_t i = index_of(r.a[0]);
        auto found = [&](auto&& q, std::size_t k) { if (!q.has_value()) return; z.res.add(P::code(q.get())); if (k >= N || std::addressof(q.get()) != std::addressof(x[k])) z.ok = 0; };
        if (p[0] == hs("at")) in<true>(p[1], x, [&](auto&& c) { found(opt::at(CX_FWD(c), i), i); });
        else if (p[0] == hs("front")) in<true>(p[1], x, [&](auto&& c) { found(opt::at_front(CX_FWD(c)), 0); });
        else if (p[0] == hs("back")) in<true>(p[1], x, [&](auto&& c) { found(opt::at_back(CX_FWD(c)), N - 1); });
        else if (p[0] == hs("set")) { if (auto q = opt::at(x, i)) q.get() = P::make(r.a[1]); }
        else if (p[0] == hs("write")) {
            if (p.n == 1) { auto q = opt::at(x, i); found(q, i); if (q) q.get() = P::make(r.a[1]); }
            else if (p[1] == hs("front")) { auto q = opt::at_front(x); found(q, 0); if (q) q.get() = P::make(r.a[0]); }
            else { auto q = opt::at_back(x); found(q, N - 1); if (q) q.get() = P::make(r.a[0]); }
        }
        else if (p[0] == hs("take")) { auto q = opt::at(static_cast<X&&>(x), i); if (q) { T y(std::move(q).get()); z.res.add(P::code(y)); } }
        else z.known = 0;
        for (std::size_t k = 0; k < N; ++k) z.t[k] = P::code(x[k]);
        return z;
    }
};
template<class A, class B, class D> struct Var { // not: valueless
    using X = std::variant<A, B, D>;
    template<class F> static constexpr void pick(int k, F&& f) { if (k == 1) f(std::integral_constant<std::size_t, 0>{}); else if (k == 2) f(std::integral_constant<std::size_t, 1>{}); else f(std::integral_constant<std::size_t, 2>{}); }
    static constexpr X make(int k, int v) {
        if (k == 1) return X(std::in_place_index<0>, PL<A>::make(v));
        if (k == 2) return X(std::in_place_index<1>, PL<B>::make(v));
        return X(std::in_place_index<2>, PL<D>::make(v));
    }
    static constexpr Seen step(const Row& r) {
        Seen z;
        X x(make(r.s[0], r.s[1]));
        const Parts p(r.name);
        pick(r.a[0], [&](auto I) {
            using E = std::variant_alternative_t<I, X>;
            auto found = [&](auto&& q) { if (!q.has_value()) return; z.res.add(PL<E>::code(q.get())); if (std::addressof(q.get()) != std::get_if<I>(&x)) z.ok = 0; };
            if (p[0] == hs("vget")) in<true>(p[1], x, [&](auto&& c) { found(opt::get<I>(CX_FWD(c))); });
            else if (p[0] == hs("vgett")) in<true>(p[1], x, [&](auto&& c) { found(opt::get<E>(CX_FWD(c))); });
            else if (p[0] == hs("varwrite")) { auto q = opt::get<I>(x); found(q); if (q) q.get() = PL<E>::make(r.a[1]); }
            else if (p[0] == hs("vartake")) { auto q = opt::get<I>(static_cast<X&&>(x)); if (q) { E y(std::move(q).get()); z.res.add(PL<E>::code(y)); } }
            else z.known = 0;
        });
        z.t[0] = int(x.index()) + 1;
        pick(z.t[0], [&](auto I) { using E = std::variant_alternative_t<I, X>; z.t[1] = PL<E>::code(*std::get_if<I>(&x)); });
        return z;
    }
};
template<class T> struct Ptr {
    using P = PL<T>;
    static constexpr Seen step(const Row& r) {
        Seen z;
        T obj[2] = {P::make(r.s[1]), P::make(r.s[2])};
        T* p = r.s[0] ? obj + r.s[0] - 1 : nullptr;
        const T* c = p;
        auto found = [&](auto&& q) { if (!q.has_value()) return; z.res.add(P::code(q.get())); if (std::addressof(q.get()) != p) z.ok = 0; };
        switch (hs(r.name)) {
        case hs("point"): p = r.a[0] ? obj + r.a[0] - 1 : nullptr; break;
        case hs("nullable_cl"): found(opt::from_nullable(c)); break;
        case hs("nullable_l"): found(opt::from_nullable(p)); break;
        case hs("ptrwrite"): { auto q = opt::from_nullable(p); found(q); if (q) *q = P::make(r.a[0]); break; }
        default: z.known = 0;
        }
        z.t[0] = p ? int(p - obj) + 1 : 0; z.t[1] = P::code(obj[0]); z.t[2] = P::code(obj[1]);
        return z;
    }
};
} // namespace C
