// Bit patterns of types with built-in traits: what the real code reserves, reads as empty, and stores faithfully (spec/Patterns.tla).
#include "payload.hpp"
#include <algorithm>
#include <thread>
#include <atomic>
#include <cstdint>
#include <random>
#include <mutex>
using namespace H;
enum class EBit0 : std::uint8_t { a };
enum class EBit7 : std::uint8_t { a = 1, b = 64 };
enum class ETop8 : std::uint8_t { a, b = 255 };
enum class EPow8 : std::uint8_t { a, b = 7 };
enum class EPow9 : std::uint8_t { a, b = 8 };
enum class E16 : std::uint16_t { a, b, c = 511 };
enum E16b : std::uint16_t { e16a = 2, e16b_ = 255, e16c_ = 256 };
enum class E16c : std::uint16_t { a, b = 5, c = 4000 };
enum class E16d : std::uint16_t { a, b = 1023 };
enum class E32 : std::uint32_t { a, b = 1, c = 2, d = 4, e = 8, f = 16, g = 32, h = 64, i = 128 };
enum class ENone : unsigned {};
namespace { enum class EHidTop : std::uint8_t { a, b = 255 }; enum EHidOpn { eh0, eh1 }; }
inline auto eloc = [] { enum class E : std::uint8_t { a, b = 20 }; return E::a; };
using ELoc = decltype(eloc());
enum class EFar : std::uint16_t { a = 5000 };
enum class EMin : int { a = 1, SENTINEL = std::numeric_limits<int>::min() };
enum class EMinEnd : int { a = 1, SENTINEL_START = std::numeric_limits<int>::min(), SENTINEL_END = std::numeric_limits<int>::min() + 9 };

using u64 = std::uint64_t;
template<class T> inline constexpr int off = 0;          // where the telling word is
template<class E> inline constexpr int off<std::basic_string_view<E>> = 8;
template<class T> struct W { static constexpr int bits = sizeof(T) * 8 < 64 ? int(sizeof(T) * 8) : 64; };
static std::string limbs(u64 v, int bits) {
    if (bits <= 16) return "[" + std::to_string(v) + "]";
    std::string r = "[";
    for (int s = bits - 16; s >= 0; s -= 16) r += std::to_string((v >> s) & 0xFFFF) + (s ? "," : "]");
    return r;
}
template<class T> u64 bits_of(const void* p) { u64 v = 0; std::memcpy(&v, (const char*)p + off<T>, W<T>::bits / 8); return v; }

template<class T> using O1 = opt::option<T>;
template<class T> using O2 = opt::option<O1<T>>;
template<class T> using O3 = opt::option<O2<T>>;
// an option whose storage starts with the given bits (rest as left by an empty option)
template<class T, class O> struct Raw {
    alignas(O) unsigned char buf[sizeof(O)]; O* o;
    Raw() { std::memset(buf, 0, sizeof buf); o = ::new (buf) O(); }      // never destroyed: the bits may be anything
    __attribute__((always_inline)) const O& set(u64 v) { std::memcpy(buf + off<T>, &v, W<T>::bits / 8); return *std::launder(reinterpret_cast<const O*>(buf)); }
};
template<class T> struct Scan {
    std::vector<u64> e[6]; u64 levelled = 0, covered = 0; std::set<u64> pats; std::mutex m;
    template<class Gen> void part(Gen gen) {
        Raw<T, O1<T>> a; Raw<T, O2<T>> b; Raw<T, O3<T>> c; alignas(T) unsigned char buf[sizeof(T)] = {};
        std::vector<u64> x[6], lv;
        gen([&](u64 v) __attribute__((always_inline)) {
            if (!a.set(v).has_value()) x[0].push_back(v);
            if constexpr (opt::option_traits<T>::max_level > 1) { const auto& o = b.set(v); if (!o.has_value()) x[1].push_back(v); else if (!o->has_value()) x[2].push_back(v); }
            if constexpr (opt::option_traits<T>::max_level > 2) { const auto& o = c.set(v); if (!o.has_value()) x[3].push_back(v); else if (!o->has_value()) x[4].push_back(v); else if (!(*o)->has_value()) x[5].push_back(v); }
            std::memcpy(buf + off<T>, &v, W<T>::bits / 8);
            if (opt::option_traits<T>::get_level(reinterpret_cast<const T*>(buf)) < opt::option_traits<T>::max_level) lv.push_back(v);
        });
        std::sort(lv.begin(), lv.end()); lv.erase(std::unique(lv.begin(), lv.end()), lv.end());
        std::lock_guard<std::mutex> g(m);
        for (int i = 0; i < 6; ++i) e[i].insert(e[i].end(), x[i].begin(), x[i].end());
        all.insert(lv.begin(), lv.end());
    }
    std::set<u64> all;
};
static bool first_rec = true;
template<class T> void put(const char* name, const std::vector<std::string>& pats, Scan<T>& s) {
    auto list = [](std::vector<u64> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); std::string r = "["; for (std::size_t i = 0; i < v.size() && i < 40; ++i) r += (i ? "," : "") + limbs(v[i], W<T>::bits); return r + "]"; };
    std::string p = "["; for (std::size_t i = 0; i < pats.size(); ++i) p += (i ? "," : "") + pats[i];
    std::size_t cov = 0; for (u64 v : s.all) cov += s.pats.count(v);
    std::printf("%s{\"type\":\"%s\",\"levels\":%ju,\"pats\":%s],\"e1\":[%s],\"e2\":[%s,%s],\"e3\":[%s,%s,%s],\"levelled\":%zu,\"covered\":%zu}\n", first_rec ? "" : ",", name, std::uintmax_t(opt::option_traits<T>::max_level), p.c_str(),
        list(s.e[0]).c_str(), list(s.e[1]).c_str(), list(s.e[2]).c_str(), list(s.e[3]).c_str(), list(s.e[4]).c_str(), list(s.e[5]).c_str(), s.all.size(), cov);
    first_rec = false;
}
template<class T> void rec(const char* name, bool full32 = false) {
    using Tr = opt::option_traits<T>;
    Scan<T> s; std::vector<std::string> pats;
    if constexpr (Tr::max_level > 0) {
        alignas(T) unsigned char buf[sizeof(T)];
        std::vector<u64> lv;
        for (u64 k = 0; k < Tr::max_level; ++k) { std::memset(buf, 0, sizeof buf); Tr::set_level(reinterpret_cast<T*>(buf), k); u64 v = bits_of<T>(buf); lv.push_back(v); pats.push_back(limbs(v, W<T>::bits)); }
        s.pats.insert(lv.begin(), lv.end());
        constexpr int w = W<T>::bits;
        if constexpr (w <= 16) s.part([](auto f) { for (u64 v = 0; v < (u64(1) << w); ++v) f(v); });
        else if (w == 32 && full32) {
            std::vector<std::thread> th;
            for (u64 t = 0; t < 8; ++t) th.emplace_back([&, t] { s.part([t](auto f) { for (u64 v = t << 29; v < (t + 1) << 29; ++v) f(v); }); });
            for (auto& x : th) x.join();
        } else s.part([&](auto f) {
            const u64 mask = w == 32 ? 0xFFFFFFFFull : ~0ull;
            for (u64 d = 0; d < 3000; ++d) { f((lv.front() - d) & mask); f((lv.back() + d) & mask); f(d); f((0 - d) & mask); }
            for (u64 v : lv) { f(v); for (int i = 0; i < w; ++i) { f(v ^ (u64(1) << i)); if (v == lv.front()) for (int j = 0; j < i; ++j) f(v ^ (u64(1) << i) ^ (u64(1) << j)); } }
            std::mt19937_64 g(12345); for (int i = 0; i < 1000000; ++i) { u64 r = g(); f(r & mask); f((lv.front() ^ (r >> (r & 63))) & mask); }
        });
    }
    put(name, pats, s);
}
static void rec_str() {        // two words: characters, size
    using T = std::string; Scan<T> s; std::vector<std::string> pats; using Tr = opt::option_traits<T>;
    alignas(T) unsigned char buf[sizeof(T)];
    for (u64 k = 0; k < Tr::max_level; ++k) { std::memset(buf, 0, sizeof buf); Tr::set_level(reinterpret_cast<T*>(buf), k); u64 a, b; std::memcpy(&a, buf, 8); std::memcpy(&b, buf + 8, 8); auto x = limbs(a, 64), y = limbs(b, 64); pats.push_back(x.substr(0, x.size() - 1) + "," + y.substr(1)); }
    std::printf("%s{\"type\":\"str\",\"levels\":0,\"pats\":[", first_rec ? "" : ",");
    for (std::size_t i = 0; i < pats.size(); ++i) std::printf("%s%s", i ? "," : "", pats[i].c_str());
    std::printf("],\"e1\":[[]],\"e2\":[[],[]],\"e3\":[[],[],[]],\"levelled\":0,\"covered\":0}\n");
}

// ---------------------------------------------------------------- storing ordinary patterns
template<class T> bool store(u64 v, std::string& why) {
    T x; std::memset((void*)&x, 0, sizeof x); std::memcpy((void*)&x, &v, W<T>::bits / 8);
    auto ok = [&](const auto& o) { if constexpr (std::is_same_v<std::decay_t<decltype(o)>, T>) return bits_of<T>(&o) == v; else return o.has_value() && bits_of<T>(&*o) == v; };
#define CK(E, S) do { if (!(E)) { why = S; return false; } } while (0)
    O1<T> a(x); CK(ok(a), "constructed from the value");
    O1<T> b(std::in_place, x); CK(ok(b), "constructed in place");
    O1<T> c; CK(!c.has_value(), "default"); c = x; CK(ok(c), "assigned to an empty option");
    c = a; CK(ok(c), "assigned option"); O1<T> d(a); CK(ok(d), "copied"); O1<T> e(std::move(d)); CK(ok(e), "moved");
    c.reset(); CK(!c.has_value(), "reset"); c.emplace(x); CK(ok(c), "emplaced");
    O1<T> f; f.swap(c); CK(ok(f) && !c.has_value(), "swapped with empty"); f.swap(a); CK(ok(f) && ok(a), "swapped");
    O1<T> g = f.take(); CK(ok(g) && !f.has_value(), "taken"); f = std::move(g); CK(ok(f), "move assigned");
    *f = x; CK(ok(f), "written"); CK(ok(f.value_or(T{})) && ok(f.get()) && ok(f.value()), "read");
    CK(ok(opt::make_option(x)), "make_option");
    auto m = f.map([](const T& y) { return y; }); CK(ok(m), "mapped");
    O2<T> n(std::in_place, x); CK(n.has_value() && ok(*n), "two deep"); O3<T> q(std::in_place, n); CK(q.has_value() && q->has_value() && ok(**q), "three deep");
    n->reset(); CK(n.has_value() && !n->has_value(), "two deep, emptied inside"); *n = x; CK(n.has_value() && ok(*n), "two deep, assigned inside"); n.reset(); CK(!n.has_value(), "two deep, emptied"); n = a; CK(n.has_value() && ok(*n), "two deep, assigned option");
    O1<T> z(x); CK(bool(z == opt::none) == false, "compared with none");
    if constexpr (opt::option_traits<T>::max_level > 0) { auto w = opt::as_option(x); CK(ok(w), "as_option"); CK(opt::option_traits<T>::get_level(&x) >= opt::option_traits<T>::max_level, "get_level"); }
    return true;
}
#if OPTION_USE_QUIET_NAN        // only what the macro concerns
using floatq = float; using doubleq = double;
#define ALL(X) X(floatq) X(doubleq)
#else
#define ALL(X) X(bool) X(float) X(double) X2(intptr, IntPtr) X2(voidptr, VoidPtr) X2(fnptr, FnPtr) X(ESent) X(EStart) X(EStartS) X(EStartEnd) X(EMin) X(EMinEnd) \
    X(EAuto) X(EAuto32) X(EBit0) X(EBit7) X(ETop8) X(EPow8) X(EPow9) X(E16) X(E16b) X(E16c) X(E16d) X(E32) X(ENone) X(EFar) X(EOpen) X(EHid) X(EHidTop) X(EHidOpn) X(ELoc)
#endif
int main(int argc, char** argv) {
    if (argc > 1) {              // store the patterns listed in a file
        std::ifstream in(argv[1]); std::string l; long n = 0;
        while (std::getline(in, l)) {
            std::istringstream s(l); std::string name; s >> name; u64 v = 0, x; while (s >> x) v = v << 16 | x;
            std::string why; bool ok = true, known = false;
#define X(T) if (name == #T) { known = true; ok = store<T>(v, why); }
#define X2(N, T) if (name == #N) { known = true; ok = store<T>(v, why); }
            ALL(X)
#undef X
#undef X2
#if OPTION_USE_QUIET_NAN
            if (!known) continue;
#else
            if (name == "floatq" || name == "doubleq") continue;
#endif
            if (!known) { std::printf("{\"bad\":\"unknown %s\"}\n", name.c_str()); return 0; }
            if (!ok) { std::printf("{\"bad\":\"%s %s: %s\"}\n", name.c_str(), l.c_str(), why.c_str()); return 0; }
            ++n;
        }
        std::printf("{\"n\":%ld}\n", n);
        return 0;
    }
    std::puts("[");
#define X(T) rec<T>(#T, std::is_same_v<T, float> || std::is_same_v<T, EMinEnd> || std::is_same_v<T, ESent>);
#define X2(N, T) rec<T>(#N);
    ALL(X)
#if !OPTION_USE_QUIET_NAN
    rec<std::reference_wrapper<int>>("refw"); rec<MDPtr>("mdata"); rec<MFPtr>("mfun"); rec<Poly>("poly"); rec<std::string_view>("sview"); rec<std::unique_ptr<int>>("uptr"); rec<std::vector<int>>("vec");
    rec<std::vector<bool>>("vecb"); rec<std::u32string_view>("sview"); rec<PolyD>("poly"); rec<std::unique_ptr<int[]>>("uptr"); rec<std::vector<std::string>>("vec");
    rec_str();
#endif
    std::puts("]");
}
