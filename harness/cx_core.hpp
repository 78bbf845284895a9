// spec/OptionCore.tla, one step in a constant expression.
#pragma once
#include "cx.hpp"

namespace C {
template<class T> struct Core {
    using O = opt::option<T>;
    using P = PL<T>;
    static constexpr bool can_copy = std::is_copy_constructible_v<T>, can_move = std::is_move_constructible_v<T>, can_assign = std::is_move_assignable_v<T>;

    // f called with the option in the category the operation's name ends with
    template<class F> static constexpr void in_cat(int c, O& o, F&& f) {
        if (c == l_) f(o);
        else if (c == cl_) f(static_cast<const O&>(o));
        else if (c == r_) f(static_cast<O&&>(o));
        else f(static_cast<const O&&>(o));
    }
    struct Name { unsigned long long stem; int cat; int kind; }; // "and_then_cl_peek" -> ("and_then", cl, peek)
    static constexpr Name parse(const char* s) {
        std::string_view v(s);
        Name n{0, 0, 0};
        auto ends = [&](std::string_view e) { return v.size() > e.size() && v.substr(v.size() - e.size()) == e; };
        auto chop = [&](std::string_view e) { if (!ends(e)) return false; v = v.substr(0, v.size() - e.size()); return true; };
        if (chop("_peek")) n.kind = 1; else if (chop("_sink")) n.kind = 2;
        if (chop("_cl")) n.cat = cl_; else if (chop("_cr")) n.cat = cr_; else if (chop("_l")) n.cat = l_; else if (chop("_r")) n.cat = r_;
        unsigned long long h = 1469598103934665603ull;
        for (char c : v) h = (h ^ (unsigned char)(c)) * 1099511628211ull;
        n.stem = h;
        return n;
    }

    // one step in progress
    struct Ctx {
        const Row& r; O* s; Seen& z; int over; int i, j, v;
        constexpr void note_(int c, int k) { z.call[0] += 1; z.call[1] = c; z.call[2] = k; }
    };
#define CX_LOCALS \
        const Row& r = c_.r; O* s = c_.s; Seen& z = c_.z; int& over = c_.over; const int i = c_.i, j = c_.j, v = c_.v; O& o = s[i]; const O& co = o; \
        auto note = [&](auto&& x) { c_.note_(P::code(x), cat<decltype(x)>()); return z.call[1]; }; \
        auto dflt = [&] { c_.note_(0, dflt_); }; \
        auto check = [&](bool b) { if (!b) z.ok = 0; }; \
        auto made = [&](const O& m) { over = code(m); }; \
        auto self = [&](bool b) { z.res = b ? enc_self : -4000; }; \
        (void)over, (void)j, (void)v, (void)co, (void)note, (void)dflt, (void)check, (void)made, (void)self, (void)o, (void)s;
    static constexpr Seen step(const Row& r) {
        Seen z;
        O s[2] = {mk<T>(r.s[0]), mk<T>(r.s[1])};
        Ctx c{r, s, z, -1, r.a[0] - 1, r.a[1] - 1, r.a[1]};   // j only where the second argument is an option
        base(c);
        z.t[0] = code(s[0]); z.t[1] = code(s[1]);
        if (c.over != -1) z.t[c.i] = c.over;                    // content of a newly made option i
        return z;
    }
    static constexpr void base(Ctx& c_) {
        CX_LOCALS
        switch (hs(r.name)) {
        case hs("ctor_default"): made(O()); break;
        case hs("ctor_none"): made(O(opt::none)); break;
        case hs("ctor_braces"): made(O{}); break;
        case hs("ctor_inplace"): P::args(v, [&](auto&&... a) { made(O(std::in_place, static_cast<decltype(a)&&>(a)...)); }); break;
        case hs("reset"): o.reset(); break;
        case hs("assign_none"): self(&(o = opt::none) == &o); break;
        case hs("emplace"): P::args(v, [&](auto&&... a) { T& x = o.emplace(static_cast<decltype(a)&&>(a)...); check(&x == o.ptr_or_null()); z.res = enc_val(P::code(x)); }); break;
        case hs("try_emplace"): P::args(v, [&](auto&&... a) { T& x = o.try_emplace(static_cast<decltype(a)&&>(a)...); check(&x == o.ptr_or_null()); z.res = enc_val(P::code(x)); }); break;
        case hs("ptr_empty"): z.res = o.ptr_or_null() == nullptr && co.ptr_or_null() == nullptr ? enc_null : -1; break;
        default: if constexpr (can_move) movers(c_); else named(r, s, z, note, dflt); break;
        }
    }
    static constexpr void movers(Ctx& c_) {
        CX_LOCALS
        switch (hs(r.name)) {
        case hs("ctor_valr"): { T x(P::make(v)); made(O(std::move(x))); break; }
        case hs("ctor_move"): made(O(std::move(s[j]))); break;
        case hs("make_option_t"): P::args(v, [&](auto&&... a) { made(opt::make_option<T>(static_cast<decltype(a)&&>(a)...)); }); break;
        case hs("make_option_r"): { T x(P::make(v)); made(opt::make_option(std::move(x))); break; }
        case hs("take"): { O t = o.take(); z.res = enc_opt(code(t)); break; }
        case hs("take_if"): { O t = o.take_if([&](auto&& x) { note(static_cast<decltype(x)&&>(x)); return v == 1; }); z.res = enc_opt(code(t)); break; }
        default: if constexpr (can_copy) copiers(c_); else amovers(c_); break;
        }
    }
    static constexpr void copiers(Ctx& c_) {
        CX_LOCALS
        switch (hs(r.name)) {
        case hs("ctor_vall"): { T x(P::make(v)); const T y(P::make(v)); made(O(x)); check(over == v); made(O(y)); check(P::code(x) == v && P::code(y) == v); break; }
        case hs("ctor_copy"): { made(O(s[j])); const O& c = s[j]; check(over == r.s[j]); made(O(c)); break; }
        case hs("make_option_l"): { const T x(P::make(v)); made(opt::make_option(x)); break; }
        default: amovers(c_); break;
        }
    }
    static constexpr void amovers(Ctx& c_) {
        CX_LOCALS
        if constexpr (can_assign) {
        switch (hs(r.name)) {
        case hs("assign_r"): { T x(P::make(v)); self(&(o = std::move(x)) == &o); break; }
        case hs("move_assign"): self(&(o = std::move(s[j])) == &o); break;
        case hs("swap"): o.swap(s[j]); break;
        case hs("swap_free"): { using std::swap; swap(o, s[j]); break; }
        case hs("take_into"): s[j] = o.take(); break;
        default: if constexpr (can_copy && can_assign) acopiers(c_); else named(r, s, z, note, dflt); break;
        }
        } else named(r, s, z, note, dflt);
    }
    static constexpr void acopiers(Ctx& c_) {
        CX_LOCALS
        switch (hs(r.name)) {
        case hs("assign_l"): { const T x(P::make(v)); self(&(o = x) == &o); check(P::code(x) == v); break; }
        case hs("copy_assign"): { const O& c = s[j]; self(&(o = c) == &o); break; }
        case hs("write_deref"): *o = P::make(v); break;
        case hs("write_get"): o.get() = P::make(v); break;
        case hs("write_unchecked"): o.get_unchecked() = P::make(v); break;
        case hs("write_value"): o.value() = P::make(v); break;
        case hs("write_value_or_throw"): o.value_or_throw() = P::make(v); break;
        case hs("write_ptr"): *o.ptr_or_null() = P::make(v); break;
        case hs("write_begin"): *o.begin() = P::make(v); break;
        case hs("write_arrow"): *o.operator->() = P::make(v); break;
        case hs("write_range"): for (auto& y : o) y = P::make(v); break;
        case hs("write_cb_inspect"): o.inspect([&](T& y) { y = P::make(v); }); break;
        case hs("write_cb_map"): (void)o.map([&](T& y) { y = P::make(v); return 0; }); break;
        default: named(r, s, z, note, dflt); break;
        }
    }

    template<class Note, class Dflt> static constexpr void named(const Row& r, O* s, Seen& z, Note& note, Dflt& dflt) {
        O& o = s[r.a[0] - 1];
        const Name n = parse(r.name);
        const int v = r.a[1];
        auto peek = [&](auto&& x) { return note(static_cast<decltype(x)&&>(x)) + 100; };
        auto some = [&](int c) { return v == 1 ? opt::option<int>(c) : opt::option<int>(); };
        auto ropt = [&](const opt::option<int>& x) { z.res = enc_opt(x ? *x : 0); };
        auto dv = [&](int c) { return [&, c] { dflt(); return c; }; };
        if (n.kind == 2) { if constexpr (can_move) sinks(n, v, o, z, dflt); else z.known = 0; return; }
        switch (n.stem) {
        case hs("has_value_and"): in_cat(n.cat, o, [&](auto&& x) { z.res = enc_bool(static_cast<decltype(x)&&>(x).has_value_and([&](auto&& y) { note(static_cast<decltype(y)&&>(y)); return v == 1; })); }); break;
        case hs("inspect"): in_cat(n.cat, o, [&](auto&& x) { auto&& y = static_cast<decltype(x)&&>(x).inspect([&](auto&& w) { note(static_cast<decltype(w)&&>(w)); }); z.res = &y == &o ? enc_self : -1; }); break;
        case hs("map"): in_cat(n.cat, o, [&](auto&& x) { ropt(static_cast<decltype(x)&&>(x).map(peek)); }); break;
        case hs("and_then"): in_cat(n.cat, o, [&](auto&& x) { ropt(static_cast<decltype(x)&&>(x).and_then([&](auto&& y) { return some(peek(static_cast<decltype(y)&&>(y))); })); }); break;
        case hs("map_or"): in_cat(n.cat, o, [&](auto&& x) { z.res = enc_val(static_cast<decltype(x)&&>(x).map_or(55, peek)); }); break;
        case hs("map_or_else"): in_cat(n.cat, o, [&](auto&& x) { z.res = enc_val(static_cast<decltype(x)&&>(x).map_or_else(dv(66), peek)); }); break;
        default:
            if constexpr (can_move) reads(n, v, o, z, note, dflt); else z.known = 0;
        }
    }
    template<class Dflt> static constexpr void sinks(const Name& n, int v, O& o, Seen& z, Dflt& dflt) {
        auto sink = [&](T&& x) { z.call[0] += 1; z.call[1] = P::code(x); z.call[2] = r_; T y(std::move(x)); return P::code(y) + 100; };
        auto some = [&](int c) { return v == 1 ? opt::option<int>(c) : opt::option<int>(); };
        auto ropt = [&](const opt::option<int>& x) { z.res = enc_opt(x ? *x : 0); };
        switch (n.stem) {
        case hs("map"): ropt(std::move(o).map(sink)); break;
        case hs("and_then"): ropt(std::move(o).and_then([&](T&& x) { return some(sink(std::move(x))); })); break;
        case hs("map_or"): z.res = enc_val(std::move(o).map_or(55, sink)); break;
        case hs("map_or_else"): z.res = enc_val(std::move(o).map_or_else([&] { dflt(); return 66; }, sink)); break;
        default: z.known = 0;
        }
    }
    template<class X> static constexpr void value(const Name& n, X&& x, Seen& z) {
        auto got = [&](auto&& y) { T t(static_cast<decltype(y)&&>(y)); z.res = enc_val(P::code(t)); };
        switch (n.stem) {
        case hs("value"): got(static_cast<X&&>(x).value()); break;
        case hs("value_or_throw"): got(static_cast<X&&>(x).value_or_throw()); break;
        case hs("get"): got(static_cast<X&&>(x).get()); break;
        case hs("deref"): got(*static_cast<X&&>(x)); break;
        default: got(static_cast<X&&>(x).get_unchecked());
        }
    }
    template<class Note, class Dflt> static constexpr void reads(const Name& n, int v, O& o, Seen& z, Note& note, Dflt& dflt) {
        switch (n.stem) {
        case hs("value"): case hs("value_or_throw"): case hs("get"): case hs("deref"): case hs("get_unchecked"):
            if (n.cat == r_) value(n, std::move(o), z);
            else if constexpr (can_copy) {
                if (n.cat == l_) value(n, o, z);
                else if (n.cat == cl_) value(n, static_cast<const O&>(o), z);
                else value(n, static_cast<const O&&>(o), z);
            } else z.known = 0;
            break;
        case hs("value_or_r"):
            if (n.cat == r_) { T y(std::move(o).value_or(P::make(v))); z.res = enc_val(P::code(y)); break; }
            [[fallthrough]];
        case hs("value_or_cl"): if constexpr (can_copy) value_or(n, v, o, z); else z.known = 0; break;
        case hs("value_or_construct"):
            P::args(v, [&](auto&&... a) {
                if (n.cat == r_) { T y(std::move(o).value_or_construct(static_cast<decltype(a)&&>(a)...)); z.res = enc_val(P::code(y)); }
                else if constexpr (can_copy) { const O& c = o; T y(c.value_or_construct(static_cast<decltype(a)&&>(a)...)); z.res = enc_val(P::code(y)); }
                else z.known = 0;
            });
            break;
        case hs("filter"): {
            auto f = [&](auto&& w) { note(static_cast<decltype(w)&&>(w)); return v == 1; };
            auto got = [&](O&& y) { z.res = enc_opt(code(y)); };
            if (n.cat == r_) got(std::move(o).filter(f));
            else if constexpr (can_copy) {
                if (n.cat == l_) got(o.filter(f));
                else if (n.cat == cl_) got(static_cast<const O&>(o).filter(f));
                else got(static_cast<const O&&>(o).filter(f));
            } else z.known = 0;
            break;
        }
        case hs("or_else"): {
            auto f = [&] { dflt(); return mk<T>(v); };
            auto got = [&](O&& y) { z.res = enc_opt(code(y)); };
            if (n.cat == r_) got(std::move(o).or_else(f));
            else if constexpr (can_copy) got(static_cast<const O&>(o).or_else(f));
            else z.known = 0;
            break;
        }
        default: z.known = 0;
        }
    }
    static constexpr void value_or(const Name& n, int v, O& o, Seen& z) {
        T d(P::make(v));
        const O& c = o;
        T y(n.stem == hs("value_or_r") ? std::move(o).value_or(d) : n.cat == l_ ? c.value_or(d) : c.value_or(std::move(d)));
        z.res = enc_val(P::code(y));
        if (n.cat == l_ && P::code(d) != v) z.ok = 0;
    }
};
} // namespace C
