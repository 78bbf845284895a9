// Replays behaviours of spec/Io.tla.  -DIO_T=element -DALT=0 same type, 1 another type.   usage: io SCRIPT 0
#include "val.hpp"
using namespace H;
static std::string res; static bool ran = true;
static void add(long long x) { res += (res.empty() ? "" : ",") + std::to_string(x); }
using T = IO_T; using R = std::remove_cv_t<std::remove_reference_t<T>>;
#if ALT
struct Alt { int n; std::string s; explicit Alt(int k) : n(k), s(std::size_t(k), 'z') {} Alt(const Alt&) = delete; Alt& operator=(const Alt&) = delete; };   // cannot be copied
template<class S> S& put(S& s, const Alt& a) { s << "alt"; s << a.n; return s; }
inline std::ostream& operator<<(std::ostream& s, const Alt& a) { return put(s, a); }
inline std::wostream& operator<<(std::wostream& s, const Alt& a) { return put(s, a); }
#ifndef OWN_ONLY
template<class C> std::basic_istream<C>& operator>>(std::basic_istream<C>& s, Alt& a) { R x; if (s >> x) a.n = vcode<R>(x); return s; }
#endif
static void alt_set(Alt& a, int k) { a.n = k; } static int alt_code(const Alt& a) { return a.n; }
#else
using Alt = R;
static void alt_set(Alt& a, int k) { a = V<R>::make(k); } static int alt_code(const Alt& a) { return vcode<R>(a); }
#endif
static const char lit[] = "literal";
// a stream of its own: notes which objects it is given, and as what
struct Own {
    const void* value[3] = {}; const void* alt = nullptr; int in[2] = {}; int next = 0, left = 0; bool failed = false;
    std::vector<std::string> seen;
    void out(const void* p, int code) {
        if (p == value[1] || p == value[2]) { add(code); return; }
        if (p == alt) { add(100 + code); return; }
        fail("the stream was given a copy");
    }
};
inline Own& operator<<(Own& s, const R& x) { s.out(std::addressof(x), vcode<R>(x)); return s; }
#if ALT
inline Own& operator<<(Own& s, const Alt& x) { s.out(std::addressof(x), alt_code(x)); return s; }
inline Own& operator>>(Own& s, Alt& x);
#endif
template<std::size_t N> Own& operator<<(Own& s, const char (&x)[N]) { if (std::strcmp(x, lit) == 0) { if ((const void*)&x != (const void*)&lit) fail("the literal was copied"); add(77); } else add(55); return s; }
template<class X> Own& own_in(Own& s, X& x) {
    if (s.next == s.left) { s.failed = true; return s; }
    const int v = s.in[s.next++];
    if ((const void*)std::addressof(x) != s.value[1] && (const void*)std::addressof(x) != s.value[2] && (const void*)std::addressof(x) != s.alt) fail("read into a copy");
    if constexpr (std::is_same_v<X, R>) x = V<R>::make(v); else if constexpr (std::is_same_v<X, Alt>) alt_set(x, v); else static_assert(sizeof(X) == 0, "reads into an unexpected type");
    return s;
}
inline Own& operator>>(Own& s, R& x) { return own_in(s, x); }
#if ALT
inline Own& operator>>(Own& s, Alt& x) { return own_in(s, x); }
#endif
template<class C> static std::basic_string<C> wide(const char* s) { return std::basic_string<C>(s, s + std::strlen(s)); }
template<class C, class X> static std::basic_string<C> text(const X& x) { std::basic_ostringstream<C> s; s.precision(17); s << x; return s.str(); }
#ifndef OWN_ONLY
// the text of a write, taken apart again
template<class C> static void parse(std::basic_string<C> s) {
    while (!s.empty()) {
        std::size_t best = 0; int what = 0;
        auto eat = [&](const std::basic_string<C>& t, int code) { if (s.compare(0, t.size(), t) == 0 && t.size() > best) { best = t.size(); what = code; } };
        eat(wide<C>("|"), 55); eat(wide<C>(lit), 77);
        for (int v = 1; v <= NV; ++v) { eat(text<C>(Alt(v)), 100 + v); eat(text<C>(V<R>::make(v)), v); }
        if (!best) { fail("wrote something else"); return; }
        add(what); s.erase(0, best);
    }
}
#endif
template<class T, class O, class Al> struct Machine {
    O o1, o2; Al alt{
#if ALT
        1
#else
        V<R>::make(1)
#endif
    };
    O& at(int i) { return i == 1 ? o1 : o2; }
    template<class F> void how(const std::string& h, int i, F&& f) {
        if (h == "l") f(at(i)); else if (h == "cl") f(std::as_const(at(i)));
        else if constexpr (std::is_copy_constructible_v<O>) f(O(at(i))); else ran = false;
    }
    template<class S, class X> static void same(S& s, X& x) { if ((const void*)std::addressof(s) != (const void*)std::addressof(x)) fail("returned another stream"); }
    // what: write, writealt, writelit, chain, kept, read, ...
    template<class S> void out(S& s, const std::vector<std::string>& p, const Line& L, Own* own) {
        const std::string& w = p[0];
        if (own) { for (int i : {1, 2}) own->value[i] = at(i) ? (const void*)std::addressof(at(i).get()) : nullptr; own->alt = std::addressof(alt); }
        if (w == "write") how(p[2], int(L.a[0]), [&](auto&& o) { if (own && p[2] == "t") own->value[1] = o ? (const void*)std::addressof(o.get()) : nullptr; same(s, s << opt::io(o)); });
        else if (w == "writealt") how(p[2], int(L.a[0]), [&](auto&& o) { if (own && p[2] == "t") own->value[1] = o ? (const void*)std::addressof(o.get()) : nullptr; const Al& ca = alt; if (p[2] == "cl") same(s, s << opt::io(o, ca)); else same(s, s << opt::io(o, alt)); });
        else if (w == "writelit") how(p[2], int(L.a[0]), [&](auto&& o) { if (own && p[2] == "t") own->value[1] = o ? (const void*)std::addressof(o.get()) : nullptr; same(s, s << opt::io(o, lit)); });
        else if (w == "chain") same(s, s << "|" << opt::io(o1) << "|" << opt::io(std::as_const(o2), std::as_const(alt)) << opt::io(o1, lit) << "|");
        else if (w == "kept") {
            const int i = int(L.a[0]), v = int(L.a[1]);
            auto a = opt::io(at(i)); auto b = opt::io(at(i), alt);
            if (v == 0) at(i).reset(); else set(i, v);
            alt_set(alt, v);
            if (own) own->value[i] = at(i) ? (const void*)std::addressof(at(i).get()) : nullptr;
            same(s, s << a << b);
        }
        else ran = false;
    }
    template<class S> void in(S& s, const std::vector<std::string>& p, const Line& L, Own* own) {
        if (own) { for (int i : {1, 2}) own->value[i] = at(i) ? (const void*)std::addressof(at(i).get()) : nullptr; own->alt = std::addressof(alt); }
        if (p[0] == "readchain") same(s, s >> opt::io(o1, alt) >> opt::io(o2, alt));
        else same(s, s >> opt::io(at(int(L.a[0])), alt));
    }
    static decltype(auto) make(int i, int v) { if constexpr (std::is_reference_v<T>) { static R holder[3] = {V<R>::make(1), V<R>::make(1), V<R>::make(1)}; holder[i] = V<R>::make(v); return static_cast<T>(holder[i]); } else return V<R>::make(v); }
    void set(int i, int v) { at(i).emplace(make(i, v)); }
};
template<class T> static int go(const char* path) {
    using O = opt::option<T>;
    Machine<T, O, Alt> m;
    for (auto& L : read_script(path)) {
        res.clear(); ran = true; ev = {};
        std::vector<std::string> p; { std::istringstream is(L.op); std::string x; while (std::getline(is, x, '_')) p.push_back(x); }
        auto A = [&](std::size_t n) { return int(L.a.at(n)); };
        bool reads = false;
        if (p[0] == "set") { if (A(1) == 0) m.at(A(0)).reset(); else m.set(A(0), A(1)); }
        else if (p[0] == "setalt") alt_set(m.alt, A(0));
        else if (p[0].compare(0, 4, "read") == 0) {
            reads = true;
            std::vector<int> in; if (p[0] == "read") in = {A(1)}; else if (p[0] == "readchain") in = {A(0), A(1)};
            if constexpr (!std::is_const_v<std::remove_reference_t<T>>) {
                if (p[1] == "own") { Own s; for (int v : in) s.in[s.left++] = v; m.in(s, p, L, &s); if (p[0] == "readend") add(s.failed); else if (s.failed || s.next != s.left) fail("read too little or too much"); }
#ifndef OWN_ONLY
                else {
                    auto f = [&](auto c) {
                        using C = decltype(c);
                        std::basic_stringstream<C> s; s.precision(17);
                        for (int v : in) s << V<R>::make(v) << C(' ');
                        m.in(s, p, L, nullptr);
                        if (p[0] == "readend") add(s.fail()); else if (s.fail()) fail("the stream failed");
                        else { std::basic_string<C> rest; s >> rest; if (!rest.empty()) fail("something is left to read"); }
                    };
                    if (p[1] == "s") f('c'); else { if constexpr (WIDE) f(L'c'); else ran = false; }
                }
#endif
            } else ran = false;
        }
        else if (p[1] == "own") { Own s; m.out(s, p, L, &s); }
#ifndef OWN_ONLY
        else {
            auto f = [&](auto c) { using C = decltype(c); std::basic_ostringstream<C> s; s.precision(17); m.out(s, p, L, nullptr); parse<C>(s.str()); if (!s) fail("the stream failed"); };
            if (p[1] == "s") f('c'); else { if constexpr (WIDE) f(L'c'); else ran = false; }
        }
#endif
        (void)reads;
        if (ev.cc + ev.ca && p.back() != "t") fail("copied");
        auto code = [&](int i) { return m.at(i) ? vcode<R>(m.at(i).get()) : 0; };
        std::printf("{\"t\":[%d,%d,%d],\"res\":[%s]%s", code(1), code(2), alt_code(m.alt), res.c_str(), ran ? "" : ",\"skip\":1");
        if (!err().empty()) std::printf(",\"err\":%s", js(err()).c_str());
        std::puts("}"); err().clear(); std::fflush(stdout);
    }
    return 0;
}
int main(int, char** argv) { return go<T>(argv[1]); }
