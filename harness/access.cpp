// Replays behaviours of spec/Access.tla.  -DAC_T=element -DPART=0 seq (-DCK container), 1 map and set (-DMK), 2 variant, 3 pointer.   usage: access SCRIPT 0
#include "val.hpp"
#include <list>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <variant>
using namespace H;
using opt::option;
#ifndef CK
#define CK 0
#endif
#ifndef MK
#define MK 0
#endif
static std::string res; static bool ran = true;
static void add(long long x) { res += (res.empty() ? "" : ",") + std::to_string(x); }
static std::vector<std::string> parts(const std::string& s) { std::vector<std::string> p; std::istringstream is(s); std::string x; while (std::getline(is, x, '_')) p.push_back(x); return p; }
static void line(const std::string& t) {
    std::printf("{\"t\":[%s],\"res\":[%s],\"copies\":%d,\"live\":%d%s", t.c_str(), res.c_str(), ev.cc + ev.ca, int(live().size()), ran ? "" : ",\"skip\":1");
    if (!err().empty()) std::printf(",\"err\":%s", js(err()).c_str());
    std::puts("}"); err().clear(); std::fflush(stdout);
}
static int end() { std::printf("{\"end\":true,\"live\":%d,\"err\":%s}\n", int(live().size()), js(live().empty() ? err() : err() + "objects are left").c_str()); return 0; }
template<class O, class F> static void cat(const std::string& c, O& o, F&& f) { if (c == "r") f(std::move(o)); else if (c == "l") f(o); else if (c == "cl") f(std::as_const(o)); else if (c == "cr") f(std::move(std::as_const(o))); else ran = false; }
// the element type of a result: what the container yields, in the category of the argument
template<class Y, class Arg> using yields = std::conditional_t<!std::is_reference_v<Y>, Y, std::conditional_t<std::is_lvalue_reference_v<Arg>, Y, std::remove_reference_t<Y>&&>>;
template<class R, class E> static void is_type() { static_assert(std::is_same_v<R, option<E>>); }
#if PART == 0
static std::size_t index_of(long long i) { switch (i) { case 90: return std::size_t(1) << 31; case 91: return std::size_t(1) << 32; case 92: return (std::size_t(1) << 32) + 1; case 93: return std::size_t(1) << 63; case 94: return ~std::size_t(0); default: return std::size_t(i); } }
// refuses what a container may not be asked
template<class T> struct Strict {
    std::vector<T> v; mutable int asked = 0;
    unsigned char size() const { return static_cast<unsigned char>(v.size()); }
    T& operator[](std::size_t i) & { chk(i); return v[i]; }
    const T& operator[](std::size_t i) const& { chk(i); return v[i]; }
    T&& operator[](std::size_t i) && { chk(i); return std::move(v[i]); }
    const T&& operator[](std::size_t i) const&& { chk(i); return std::move(v[i]); }
    T& front() { chk(0); return v.front(); } const T& front() const { chk(0); return v.front(); }
    T& back() { chk(v.size() - 1); return v.back(); } const T& back() const { chk(v.size() - 1); return v.back(); }
    void chk(std::size_t i) const { ++asked; if (i >= v.size()) { fail("the container was asked for an element it does not have"); std::puts("{\"err\":\"the container was asked for an element it does not have\",\"t\":[],\"res\":[]}"); std::exit(3); } }
};
// elements live elsewhere: constness is not passed on
template<class T> struct View {
    std::vector<T>* v;
    std::size_t size() const { return v->size(); }
    T& operator[](std::size_t i) const { return (*v)[i]; }
    T& front() const { return v->front(); }
    T& back() const { return v->back(); }
};
template<class T> struct Only { std::list<T> v; int size() const { return int(v.size()); } auto& front() { return v.front(); } auto& front() const { return v.front(); } auto& back() { return v.back(); } auto& back() const { return v.back(); }
    T& operator[](int i) { auto it = v.begin(); std::advance(it, i); return *it; } const T& operator[](int i) const { auto it = v.begin(); std::advance(it, i); return *it; } };
#if CK == 0 || CK == 9
using C_ = std::vector<AC_T>;
#elif CK == 1
using C_ = std::deque<AC_T>;
#elif CK == 3
using C_ = std::array<AC_T, 3>;
#elif CK == 4
using C_ = std::array<AC_T, 1>;
#elif CK == 5
using C_ = std::array<AC_T, 0>;
#elif CK == 6
using C_ = std::basic_string<AC_T>;
#elif CK == 7
using C_ = Strict<AC_T>;
#elif CK == 8
using C_ = std::vector<bool>;
#elif CK == 10
using C_ = std::string_view;
#elif CK == 11
using C_ = Only<AC_T>;
#endif
template<class C, class T> static int go(const char* path) {
    constexpr bool PROXY = CK == 8, FIXED = CK >= 3 && CK <= 5;
    static char buf[4] = {}; std::size_t len = 0;
#if CK == 10
    C c(buf, 0);
#elif CK == 3
    C c{V<T>::make(1), V<T>::make(1), V<T>::make(1)};
#elif CK == 4
    C c{V<T>::make(1)};
#else
    C c{};
#endif
#if CK == 9
    View<T> view{&c};
    auto& x = view;
#else
    auto& x = c;
#endif
    using X = std::remove_reference_t<decltype(x)>;
    auto elem = [&](std::size_t i) -> decltype(auto) { return c[i]; };
    auto size = [&] { return std::size_t(c.size()); };
    auto found = [&](auto& r, std::size_t i) {
        if (!r.has_value()) return;
        if constexpr (PROXY) add(V<bool>::code(bool(r.get())));
        else { add(vcode<T>(r.get())); if constexpr (CK != 5) if (i >= size() || std::addressof(r.get()) != std::addressof(elem(i))) fail("refers to something else than the element"); }
    };
    for (auto& L : read_script(path)) {
        res.clear(); ran = true; ev = {};
        auto p = parts(L.op);
        const std::size_t i = L.a.empty() ? 0 : index_of(L.a[0]);
        auto v = [&](std::size_t k) { return int(L.a.at(k)); };
        auto put = [&](std::size_t k, int val) { if constexpr (CK == 10) buf[k] = V<char>::make(val); else if constexpr (CK != 5) c[k] = V<T>::make(val); };
        if (p[0] == "push") {
            if constexpr (CK == 10) { buf[len++] = V<char>::make(v(0)); c = C{buf, len}; }
            else if constexpr (CK == 7 || CK == 11) c.v.push_back(V<T>::make(v(0)));
            else if constexpr (!FIXED) c.push_back(V<T>::make(v(0)));
        }
        else if (p[0] == "pop") { if constexpr (CK == 10) c = C{buf, --len}; else if constexpr (CK == 7 || CK == 11) c.v.pop_back(); else if constexpr (!FIXED) c.pop_back(); }
        else if (p[0] == "set") put(i, v(1));
        else if (p[0] == "at") cat(p[1], x, [&](auto&& k) { using K = decltype(k); ev = {}; auto r = opt::at(static_cast<K>(k), i); is_type<decltype(r), yields<decltype(static_cast<K>(k)[0]), K>>(); found(r, i); });
        else if (p[0] == "front") { if constexpr (!PROXY) cat(p[1], x, [&](auto&& k) { using K = decltype(k); ev = {}; auto r = opt::at_front(static_cast<K>(k)); is_type<decltype(r), yields<decltype(static_cast<K>(k).front()), K>>(); found(r, 0); }); else if (size()) add(V<bool>::code(c[0])); }
        else if (p[0] == "back") { if constexpr (!PROXY) cat(p[1], x, [&](auto&& k) { using K = decltype(k); ev = {}; auto r = opt::at_back(static_cast<K>(k)); is_type<decltype(r), yields<decltype(static_cast<K>(k).back()), K>>(); found(r, size() - 1); }); else if (size()) add(V<bool>::code(c[size() - 1])); }
        else if (p[0] == "write") {
            if constexpr (CK != 10) {
                if (p.size() == 1) { auto r = opt::at(x, i); found(r, i); if (r) r.get() = V<T>::make(v(1)); }
                else if (p[1] == "front") { auto r = opt::at_front(x); found(r, 0); if (r) r.get() = V<T>::make(v(0)); }
                else { auto r = opt::at_back(x); found(r, size() - 1); if (r) r.get() = V<T>::make(v(0)); }
            }
        }
        else if (p[0] == "take") { if constexpr (CK != 10) { auto r = opt::at(static_cast<X&&>(x), i); if (r) { T y = std::move(r).get(); ev = {}; add(vcode<T>(y)); } } }
        else ran = false;
        std::string t;
        for (std::size_t k = 0; k < size(); ++k) { int y; if constexpr (PROXY) y = V<bool>::code(bool(elem(k))); else y = vcode<T>(elem(k)); t += (k ? "," : "") + std::to_string(y); }
        line(t);
    }
    if constexpr (CK == 7 || CK == 11) c.v.clear(); else if constexpr (!FIXED && CK != 10) c.clear();
    if constexpr (FIXED) live().clear();
    return end();
}
#elif PART == 1
struct Key { int k; std::string pad = "p"; friend bool operator<(const Key& a, const Key& b) { return a.k < b.k; } friend bool operator==(const Key& a, const Key& b) { return a.k == b.k; } };
static const char* seen_cat; static int finds;
template<class M, bool MAPPED> struct Rec0 { using mapped_type = typename M::mapped_type; };
template<class M> struct Rec0<M, false> {};
// notes how it is asked
template<class M, bool MAPPED> struct Rec : Rec0<M, MAPPED> {
    M m;
    template<class K> auto find(K&& k) { ++finds; seen_cat = cat_of<K&&>::value; return m.find(k); }
    template<class K> auto find(K&& k) const { ++finds; seen_cat = cat_of<K&&>::value; return m.find(k); }
    auto end() { return m.end(); } auto end() const { return m.end(); }
    auto size() const { return m.size(); }
    template<class... A> void emplace(A&&... a) { m.emplace(static_cast<A&&>(a)...); }
};
#if MK == 0
using C_ = std::map<int, AC_T>; static int key(int k) { return k * 7; }
#elif MK == 1
using C_ = std::unordered_map<std::string, AC_T>; static std::string key(int k) { return std::string(std::size_t(k) * 11, 'k'); }
#elif MK == 2
using C_ = std::map<std::string, AC_T, std::less<>>; static std::string_view key(int k) { return k == 1 ? "" : k == 2 ? "two" : "three"; }
#elif MK == 3
using C_ = Rec<std::map<Key, AC_T>, true>; static Key key(int k) { return {k}; }
#elif MK == 4
using C_ = std::set<AC_T>; static AC_T key(int k) { return V<AC_T>::make(k); }
#elif MK == 5
using C_ = std::unordered_set<AC_T>; static AC_T key(int k) { return V<AC_T>::make(k); }
#elif MK == 6
using C_ = Rec<std::set<Key>, false>; static Key key(int k) { return {k}; }
#endif
template<class T, class R> static void met(R& r, const void* where) { if (r.has_value()) { if constexpr (MK == 6) add(r.get().k); else add(vcode<T>(r.get())); if ((const void*)std::addressof(r.get()) != where) fail("refers to something else than the element"); } }
template<class T, class M, class Y> static void look1(M&& m, Y&& y, const char* want, const void* where) {
    using E = std::conditional_t<MK == 6, Key, T>;
    using W = std::conditional_t<(MK >= 4) || std::is_const_v<std::remove_reference_t<M>>, const E&, E&>;
    finds = 0; ev = {};
    auto r = opt::lookup(static_cast<M&&>(m), static_cast<Y&&>(y));
    is_type<decltype(r), W>();
    if constexpr (MK == 3 || MK == 6) { if (finds != 1 || std::string(seen_cat) != want) fail("the key was not passed on as given"); }
    met<T>(r, where);
}
template<class T, class M> static void look(M&& m, int k, unsigned tick, const void* where) {
    auto kk = key(k);
    switch (tick % 3) { case 0: look1<T>(static_cast<M&&>(m), std::as_const(kk), "cl", where); break; case 1: look1<T>(static_cast<M&&>(m), kk, "l", where); break; default: look1<T>(static_cast<M&&>(m), std::move(kk), "r", where); }
}
template<class C, class T> static int go(const char* path) {
    constexpr bool SET = MK >= 4;
    C c;
    auto code = [&](auto it) { if constexpr (MK == 6) return it->k; else if constexpr (SET) return vcode<T>(*it); else return vcode<T>(it->second); };
    auto addr = [&](int k) -> const void* { auto it = c.find(key(k)); if (it == c.end()) return nullptr; if constexpr (SET) return std::addressof(*it); else return std::addressof(it->second); };
    auto real = [&](auto k) { if constexpr (MK == 2) return std::string(k); else return k; };
    unsigned tick = 0;
    for (auto& L : read_script(path)) {
        res.clear(); ran = true; ev = {};
        auto p = parts(L.op);
        const int k = int(L.a.at(0));
        if (p[0] == "insert") { if constexpr (SET) c.emplace(key(k)); else c.emplace(real(key(k)), V<T>::make(int(L.a[1]))); }
        else if (p[0] == "erase") { const auto kk = real(key(k)); if constexpr (MK == 3 || MK == 6) c.m.erase(kk); else { auto it = c.find(kk); if (it != c.end()) c.erase(it); } }
        else if (p[0] == "lookup") { if (p[1] == "l") look<T>(c, k, tick++, addr(k)); else if (p[1] == "cl") look<T>(std::as_const(c), k, tick++, addr(k)); else if (p[1] == "cr") look<T>(std::move(std::as_const(c)), k, tick++, addr(k)); else ran = false; }
        else if (p[0] == "mapwrite") { if constexpr (!SET) { auto r = opt::lookup(c, key(k)); met<T>(r, addr(k)); if (r) *r = V<T>::make(int(L.a[1])); } }
        else ran = false;
        std::string t; std::size_t n = 0;
        for (int j = 1; j <= 3; ++j) { auto it = c.find(key(j)); if (it != c.end()) ++n; t += (j > 1 ? "," : "") + std::to_string(it == c.end() ? 0 : code(it)); }
        if (n != c.size()) fail("a stray element");
        line(t);
    }
    c = C();
    return end();
}
#elif PART == 2
using T = AC_T;
struct boomtag {};
struct A3 { int v; std::string pad = "long enough to live on the heap, surely so"; explicit A3(int x) : v(x) {} explicit A3(boomtag) { throw 1; } A3(A3&& o) noexcept(false) : v(o.v), pad(o.pad) {} A3& operator=(A3&&) = default; };
using C = std::variant<T, long, A3>;
template<class E> static E mk(int k) { if constexpr (std::is_same_v<E, A3>) return A3(k); else return V<E>::make(k); }
template<class E> static int cd(const E& x) { if constexpr (std::is_same_v<E, A3>) return x.v; else return vcode<E>(x); }
static int go(const char* path) {
    C c(std::in_place_index<0>, mk<T>(1));
    auto pick = [&](int k, auto&& f) { if (k == 1) f(std::integral_constant<std::size_t, 0>{}); else if (k == 2) f(std::integral_constant<std::size_t, 1>{}); else f(std::integral_constant<std::size_t, 2>{}); };
    for (auto& L : read_script(path)) {
        res.clear(); ran = true; ev = {};
        auto p = parts(L.op);
        const int k = L.a.empty() ? 0 : int(L.a[0]);
        auto check = [&](auto& r, auto I) { if (r.has_value()) { add(cd(r.get())); if ((const void*)std::addressof(r.get()) != std::get_if<I>(&c)) fail("refers to something else than the alternative"); } };
        if (p[0] == "setvar") pick(k, [&](auto I) { c.template emplace<I>(mk<std::variant_alternative_t<I, C>>(int(L.a[1]))); });
        else if (p[0] == "valueless") { try { c.template emplace<2>(boomtag{}); } catch (int) {} if (!c.valueless_by_exception()) fail("not valueless"); }
        else if (p[0] == "vget" || p[0] == "vgett") cat(p[1], c, [&](auto&& x) { pick(k, [&](auto I) {
            using X = decltype(x); using E = std::variant_alternative_t<I, C>;
            using Q = std::conditional_t<std::is_const_v<std::remove_reference_t<X>>, const E, E>;
            using W = std::conditional_t<std::is_lvalue_reference_v<X>, Q&, Q&&>;
            ev = {};
            if (p[0] == "vget") { auto r = opt::get<I>(static_cast<X>(x)); is_type<decltype(r), W>(); check(r, I); }
            else { auto r = opt::get<E>(static_cast<X>(x)); is_type<decltype(r), W>(); check(r, I); }
        }); });
        else if (p[0] == "varwrite") pick(k, [&](auto I) { auto r = opt::get<I>(c); check(r, I); if (r) *r = mk<std::variant_alternative_t<I, C>>(int(L.a[1])); });
        else if (p[0] == "vartake") pick(k, [&](auto I) { using E = std::variant_alternative_t<I, C>; auto r = opt::get<E>(std::move(c)); if (r) { E y = std::move(r).get(); add(cd(y)); } });
        else ran = false;
        std::string t = "0,0";
        for (int j = 1; j <= 3; ++j) pick(j, [&](auto I) { if (auto* q = std::get_if<I>(&c)) t = std::to_string(j) + "," + std::to_string(cd(*q)); });
        line(t);
    }
    c.template emplace<1>(0L);
    return end();
}
#else
using T = AC_T;
static int go(const char* path) {
    {
    T o[2] = {V<T>::make(1), V<T>::make(2)};
    T* q = nullptr;
    for (auto& L : read_script(path)) {
        res.clear(); ran = true; ev = {};
        auto p = parts(L.op);
        auto check = [&](auto& r) { if (r.has_value()) { add(vcode<T>(r.get())); if (std::addressof(r.get()) != q) fail("refers to something else"); } };
        if (p[0] == "point") q = L.a[0] ? std::addressof(o[L.a[0] - 1]) : nullptr;
        else if (p[0] == "nullable" && p[1] == "l") { auto r = opt::from_nullable(q); is_type<decltype(r), T&>(); check(r); }
        else if (p[0] == "nullable") { const T* const cq = q; auto r = opt::from_nullable(cq); is_type<decltype(r), const T&>(); check(r); }
        else if (p[0] == "ptrwrite") { auto r = opt::from_nullable(q); check(r); if (r) *r = V<T>::make(int(L.a[0])); }
        else ran = false;
        line(std::to_string(q == nullptr ? 0 : q == o ? 1 : 2) + "," + std::to_string(vcode<T>(o[0])) + "," + std::to_string(vcode<T>(o[1])));
    }
    }
    return end();
}
#endif
#if PART < 2
int main(int, char** argv) { return go<C_, AC_T>(argv[1]); }
#else
int main(int, char** argv) { return go(argv[1]); }
#endif
