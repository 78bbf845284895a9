// Replays behaviours of spec/Structure.tla.  -DST_T=payload -DPART=0 zip, 1 nest (-DDEPTH), 2 pair (-DPK).   usage: structure SCRIPT 0
#include "val.hpp"
#include <tuple>
#include <array>
using namespace H;
using opt::option;
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef PK
#define PK 0
#endif
template<class T> struct Pool {
    static constexpr bool REF = std::is_reference_v<T>;
    static constexpr bool COPY = REF || copyable<T>;
    std::string res; bool ran = true; Ev e; const char* op = "";
    std::vector<std::string> p;
    void add(long long x) { res += (res.empty() ? "" : ",") + std::to_string(x); }
    template<class O, class F> void with(const std::string& c, O& o, F&& f) {
        if (c == "r") f(std::move(o));
        else if constexpr (COPY) { if (c == "l") f(o); else if (c == "cl") f(std::as_const(o)); else if (c == "cr") f(std::move(std::as_const(o))); else ran = false; }
        else ran = false;
    }
    // also for what cannot be copied
    template<class O, class F> void look(const std::string& c, O& o, F&& f) { if (c == "r") f(std::move(o)); else if (c == "l") f(o); else if (c == "cl") f(std::as_const(o)); else if (c == "cr") f(std::move(std::as_const(o))); else ran = false; }
    template<class O, class F> void lookc(const std::string& c, O& o, F&& f) { if (c == "r") f(std::move(o)); else if (c == "l") f(o); else if (c == "cl") f(std::as_const(o)); else if constexpr (COPY) { if (c == "cr") f(std::move(std::as_const(o))); else ran = false; } else ran = false; }
    void split(const std::string& s) { p.clear(); std::istringstream is(s); std::string x; while (std::getline(is, x, '_')) p.push_back(x); }
    void done() { e = ev; }
    void line(const std::string& t) {
        std::printf("{\"t\":%s,\"res\":[%s],\"copies\":%d,\"live\":%d%s", t.c_str(), res.c_str(), e.cc + e.ca, int(live().size()), ran ? "" : ",\"skip\":1");
        if (!err().empty()) std::printf(",\"err\":%s", js(err()).c_str());
        std::puts("}"); err().clear(); std::fflush(stdout);
    }
    int end() { std::printf("{\"end\":true,\"live\":%d,\"err\":%s}\n", int(live().size()), js(live().empty() ? err() : err() + "objects are left").c_str()); return 0; }
    template<class X, class Y> void same(const X&, const char* what) { if (!std::is_same_v<X, Y>) fail(std::string("unexpected type of ") + what); }
};
#if PART == 0
struct Derived0 { int v; };
template<class T> struct Box { int c; explicit Box(T&& x) : c(0) { if constexpr (std::is_reference_v<T>) c = V<T>::code(x); else { T y(std::move(x)); c = V<T>::code(y); } } };
template<class T> struct BoxC { int c; explicit BoxC(const T& x) : c(0) { T y(x); c = V<T>::code(y); } explicit BoxC(T&& x) : c(0) { T y(std::move(x)); c = V<T>::code(y); } };
template<class T> int go(const char* path) {
    using O = option<T>;
    Pool<T> q;
    constexpr bool REF = Pool<T>::REF, COPY = Pool<T>::COPY;
    alignas(O) static unsigned char mem[3][sizeof(O)];
    auto at = [&](int i) -> O& { return *std::launder(reinterpret_cast<O*>(mem[i - 1])); };
    for (int i = 1; i <= 3; ++i) { std::memset(mem[i - 1], 0xA5, sizeof(O)); ::new (mem[i - 1]) O(); }
    auto code = [&](const O& o) { return o.has_value() ? vcode<T>(o.get()) : 0; };
    auto tup = [&](auto&& r) {
        q.done();
        if (!r.has_value()) { q.add(0); return; }
        std::apply([&](auto&... x) { (q.add(vcode<T>(x)), ...); }, r.get());
    };
    auto zip = [&](auto&&... a) {
        ev = {};
        auto r = opt::zip(static_cast<decltype(a)>(a)...);
        static_assert(std::is_same_v<decltype(r), option<std::tuple<std::conditional_t<true, T, decltype(a)>...>>>);
        tup(r);
    };
    auto zipwith = [&](auto&&... a) {
        ev = {};
        int calls = 0; std::string vals;
        auto r = opt::zip_with([&](std::conditional_t<true, T, decltype(a)>... x) { ++calls; ((vals += "," + std::to_string(vcode<T>(x))), ...); return calls * 100L; }, static_cast<decltype(a)>(a)...);
        static_assert(std::is_same_v<decltype(r), option<long>>);
        q.done();
        q.res = std::to_string(calls) + vals;
        if (r.has_value() != (calls > 0) || (r && *r != 100)) fail("result of zip_with");
    };
    auto ziplook = [&](auto&&... a) {
        ev = {};
        int calls = 0; std::string vals;
        auto nop = [](auto&&...) {};
        static_assert(std::is_void_v<decltype(opt::zip_with(nop, static_cast<decltype(a)>(a)...))>);
        opt::zip_with([&](auto&&... x) { ++calls; ((vals += "," + std::to_string(vcode<T>(x))), ...); ([&] { static_assert(std::is_same_v<decltype(x), decltype(static_cast<decltype(a)>(a).get())&&>); }(), ...); }, static_cast<decltype(a)>(a)...);
        q.done(); q.res = std::to_string(calls) + vals;
    };
    auto zipref = [&](auto&& a, auto&& b) {
        ev = {};
        int calls = 0; std::string vals;
        auto r = opt::zip_with([&](auto&& x, auto&& y) -> decltype(y) { ++calls; vals = "," + std::to_string(vcode<T>(x)) + "," + std::to_string(vcode<T>(y)); return static_cast<decltype(y)>(y); }, static_cast<decltype(a)>(a), static_cast<decltype(b)>(b));
        static_assert(std::is_same_v<decltype(r), option<decltype(static_cast<decltype(b)>(b).get())>>);
        q.done(); q.res = std::to_string(calls) + vals;
        if (r.has_value() != (calls > 0)) fail("result of zip_with");
        if (r.has_value() && std::addressof(r.get()) != std::addressof(b.get())) fail("refers to something else than what the function returned");
    };
    for (auto& L : read_script(path)) {
        auto A = [&](std::size_t k) { return int(L.a.at(k)); };
        q.res.clear(); q.ran = true; q.split(L.op); ev = {}; q.e = {};
        auto& p = q.p;
        auto S = [&](std::size_t k) -> O& { return at(A(k)); };
        if (p[0] == "set") { if (A(1)) S(0).emplace(V<T>::make(A(1))); else S(0).reset(); }
        else if (p[0] == "zip0") { auto r = opt::zip(); static_assert(std::is_same_v<decltype(r), option<std::tuple<>>>); q.add(r.has_value()); }
        else if (p[0] == "roundtrip") { if constexpr (COPY) { auto [x, y] = opt::unzip(opt::zip(std::as_const(S(0)), S(1))); q.add(code(x)); q.add(code(y)); } }
        else if (p[0] == "cast") {
            if constexpr (REF) q.look(p[1], S(0), [&](auto&& a) { auto r = opt::option_cast<Box<T>>(static_cast<decltype(a)>(a)); static_assert(std::is_same_v<decltype(r), option<Box<T>>>); q.add(r ? r->c : 0); });
            else if constexpr (!COPY) q.with(p[1], S(0), [&](auto&& a) { ev = {}; auto r = opt::option_cast<Box<T>>(static_cast<decltype(a)>(a)); q.done(); q.add(r ? r->c : 0); });
            else q.with(p[1], S(0), [&](auto&& a) { ev = {}; auto r = opt::option_cast<BoxC<T>>(static_cast<decltype(a)>(a)); static_assert(std::is_same_v<decltype(r), option<BoxC<T>>>); q.done(); q.add(r ? r->c : 0); });
        }
        else if (p.size() == 2) { q.with(p[1], S(0), [&](auto&& a) { if (p[0] == "zip") zip(static_cast<decltype(a)>(a)); else zipwith(static_cast<decltype(a)>(a)); }); }
        else if (p[0] == "ziplook") q.look(p[1], S(0), [&](auto&& a) { q.look(p[2], S(1), [&](auto&& b) { ziplook(static_cast<decltype(a)>(a), static_cast<decltype(b)>(b)); }); });
        else if (p[0] == "zipref") q.look(p[1], S(0), [&](auto&& a) { q.look(p[2], S(1), [&](auto&& b) { zipref(static_cast<decltype(a)>(a), static_cast<decltype(b)>(b)); }); });
        else if (p.size() == 3) {
            q.with(p[1], S(0), [&](auto&& a) { q.with(p[2], S(1), [&](auto&& b) {
                if (p[0] == "zip") zip(static_cast<decltype(a)>(a), static_cast<decltype(b)>(b)); else zipwith(static_cast<decltype(a)>(a), static_cast<decltype(b)>(b)); }); });
        }
        else if (p.size() == 4) {
            auto two = [&](const std::string& c, O& o, auto&& f) { if (c == "r") f(std::move(o)); else if constexpr (COPY) f(std::as_const(o)); else q.ran = false; };
            two(p[1], S(0), [&](auto&& a) { two(p[2], S(1), [&](auto&& b) { two(p[3], S(2), [&](auto&& c) {
                if (p[0] == "zip") zip(static_cast<decltype(a)>(a), static_cast<decltype(b)>(b), static_cast<decltype(c)>(c)); else zipwith(static_cast<decltype(a)>(a), static_cast<decltype(b)>(b), static_cast<decltype(c)>(c)); }); }); });
        }
        else q.ran = false;
        q.line("[" + std::to_string(code(at(1))) + "," + std::to_string(code(at(2))) + "," + std::to_string(code(at(3))) + "]");
    }
    for (int i = 1; i <= 3; ++i) at(i).~O();
    return q.end();
}
#elif PART == 1
template<class T, int D> struct NestOf { using type = option<typename NestOf<T, D - 1>::type>; };
template<class T> struct NestOf<T, 0> { using type = T; };
template<class T, class O> void setn(O& o, int c) {
    using X = typename O::value_type;
    if (c == 0) { o.reset(); return; }
    if constexpr (std::is_same_v<X, T>) o.emplace(V<T>::make(c));
    else { o.emplace(); setn<T>(o.get(), c < 0 ? c + 1 : c); }
}
template<class T, class O> int coden(const O& o) {
    using X = typename O::value_type;
    if (!o.has_value()) return 0;
    if constexpr (std::is_same_v<X, T>) return vcode<T>(o.get());
    else { const int c = coden<T>(o.get()); return c > 0 ? c : c - 1; }
}
template<class T, class O> const void* inner(const O& o) { using X = typename O::value_type; if constexpr (std::is_same_v<X, T>) return std::addressof(o.get()); else return inner<T>(o.get()); }
template<class T> int go(const char* path) {
    using O = typename NestOf<T, DEPTH>::type;
    Pool<T> q;
    constexpr bool REF = Pool<T>::REF;
    O o;
    for (auto& L : read_script(path)) {
        auto A = [&](std::size_t k) { return int(L.a.at(k)); };
        q.res.clear(); q.ran = true; q.split(L.op); ev = {}; q.e = {};
        if (L.op == "set") setn<T>(o, A(0));
        else if (L.op == "flatten_write") { if constexpr (!REF) { auto r = opt::flatten(o); if (r) { *r = V<T>::make(A(0)); } q.add(r.has_value()); } }
        else q.lookc(q.p[1], o, [&](auto&& x) {
            using R = std::conditional_t<REF, T, std::conditional_t<std::is_lvalue_reference_v<decltype(x)>, std::conditional_t<std::is_const_v<std::remove_reference_t<decltype(x)>>, const std::remove_reference_t<T>&, std::remove_reference_t<T>&>, T>>;
            ev = {};
            auto r = opt::flatten(static_cast<decltype(x)>(x));
            q.done();
            static_assert(std::is_same_v<decltype(r), option<R>>);
            q.add(r.has_value() ? vcode<T>(r.get()) : 0);
            q.add(r.has_value() && std::is_lvalue_reference_v<decltype(x)> && (const void*)std::addressof(r.get()) == inner<T>(o));
        });
        q.line("[" + std::to_string(coden<T>(o)) + "]");
    }
    o.reset();
    return q.end();
}
#else
template<class T> int go(const char* path) {
#if PK == 0
    using P = std::pair<T, long>; using B = long;
#elif PK == 1
    using P = std::tuple<T, long>; using B = long;
#elif PK == 2
    using P = std::array<T, 2>; using B = T;
#elif PK == 3
    using P = std::pair<T, T>; using B = T;
#endif
    using O = option<P>;
    Pool<T> q;
    O o;
    auto code = [&](const O& x) { return x.has_value() ? "[" + std::to_string(vcode<T>(std::get<0>(x.get()))) + "," + std::to_string(vcode<B>(std::get<1>(x.get()))) + "]" : std::string("[]"); };
    auto pick = [&](int k, auto&& f) { if (k == 1) f(std::integral_constant<std::size_t, 0>{}); else f(std::integral_constant<std::size_t, 1>{}); };
    for (auto& L : read_script(path)) {
        auto A = [&](std::size_t k) { return int(L.a.at(k)); };
        q.res.clear(); q.ran = true; q.split(L.op); ev = {}; q.e = {};
        auto& p = q.p;
        if (L.op == "set") { if (!A(0)) o.reset(); else if constexpr (PK == 2) { if constexpr (!Pool<T>::REF) o.emplace(P{V<T>::make(A(0)), V<T>::make(A(1))}); } else o.emplace(V<T>::make(A(0)), V<B>::make(A(1))); }
        else if (p[0] == "unzip") q.with(p[1], o, [&](auto&& x) {
            ev = {};
            auto r = opt::unzip(static_cast<decltype(x)>(x));
            q.done();
            if constexpr (PK != 2) static_assert(std::is_same_v<std::tuple_element_t<0, decltype(r)>, option<T>> && std::is_same_v<std::tuple_element_t<1, decltype(r)>, option<B>>);
            auto& [a, b] = r;
            q.add(a ? vcode<T>(a.get()) : 0); q.add(b ? vcode<B>(b.get()) : 0);
        });
        else if (p[0] == "get" || p[0] == "gett") q.look(p[1], o, [&](auto&& x) { pick(A(0), [&](auto I) {
            ev = {};
            auto fin = [&](auto&& r) {
                q.done();
                using E = std::tuple_element_t<I, P>;
                q.add(r.has_value() ? vcode<E>(r.get()) : 0);
                q.add(r.has_value() && (const void*)std::addressof(r.get()) == (const void*)std::addressof(std::get<I>(o.get())));
            };
            if (p[0] == "get" || PK >= 2 || Pool<T>::REF) fin(opt::get<I>(static_cast<decltype(x)>(x)));
            else if constexpr (PK < 2 && !Pool<T>::REF) fin(opt::get<std::tuple_element_t<I, P>>(static_cast<decltype(x)>(x)));
        }); });
        else if (p[0] == "getwrite") { if constexpr (!Pool<T>::REF) pick(A(0), [&](auto I) { auto r = opt::get<I>(o); q.add(r.has_value()); if (r) *r = V<std::tuple_element_t<I, P>>::make(A(1)); }); }
        else if (p[0] == "gettake") { if constexpr (!Pool<T>::REF) pick(A(0), [&](auto I) { ev = {}; auto r = opt::get<I>(std::move(o)); if (r) { using E = std::tuple_element_t<I, P>; E x = std::move(r).get(); q.done(); q.add(vcode<E>(x)); } else { q.done(); q.add(0); } }); }
        else if (p[0] == "roundtrip") { if constexpr (Pool<T>::COPY) { auto u = opt::unzip(o); auto& [a, b] = u; auto z = opt::zip(a, b); if (z) { q.add(vcode<T>(std::get<0>(*z))); q.add(vcode<B>(std::get<1>(*z))); } else q.add(0); } }
        else q.ran = false;
        q.line(code(o));
    }
    o.reset();
    return q.end();
}
#endif
int main(int argc, char** argv) { return argc < 2 ? 2 : go<ST_T>(argv[1]); }
