// Shared by every harness: script reading, JSON output, object ledger, tracked payload types.
// Only the public interface of the library is used anywhere under /verif/harness.
#pragma once
#include <tuple>
#include <utility>
#include <new>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <memory>
#include <type_traits>
#include <functional>
#include <map>
#include <array>
#include <complex>
#include <string_view>
#include <optional>
#include <variant>
#include <deque>
#include <list>
#include <limits>

// OPTION_VERIFY is a documented customisation point: make a failed check observable and harmless to the host.
struct verify_failed { const char* msg; };
inline int& verify_count() { static int n = 0; return n; }

#include <opt/option.hpp>

namespace H {

// ---------------------------------------------------------------- ledger
struct Ev { int vc = 0, cc = 0, ca = 0, va = 0, ma = 0, mc = 0, d = 0; };
inline Ev ev;
inline std::set<const void*>& live() { static std::set<const void*> s; return s; }
inline std::string& err() { static std::string e; return e; }
inline void fail(const std::string& s) { if (err().size() < 300) { err() += s; err() += ";"; } }
inline int fuse = -1;            // >=0: the fuse-th counted operation throws
struct boom { int id; };
inline int pending = -1;         // the fuse the next operation starts with
inline bool cb_pending = false, cb_armed = false, fired = false;
inline int token = 0;            // identifies the exception thrown
#if defined(__cpp_exceptions)
inline void go_boom() { fired = true; throw boom{++token}; }
#else
inline void go_boom() { std::abort(); }
#endif
inline void burn() { if (fuse >= 0 && fuse-- == 0) go_boom(); }
inline void tick_cb() { if (cb_armed) { cb_armed = false; go_boom(); } }
inline void arm() { ev = {}; fuse = pending; cb_armed = cb_pending; fired = false; pending = -1; cb_pending = false; }
inline void disarm() { fuse = -1; cb_armed = false; }
inline void born(const void* p) { if (!live().insert(p).second) fail("constructed over a live object"); }
inline void dead(const void* p) { if (live().erase(p) == 0) fail("destroyed an object that is not alive"); }
inline void alive(const void* p, const char* what) { if (live().count(p) == 0) fail(std::string(what) + " an object that is not alive"); }

constexpr int MOVED = 9;

// Everything counted and registered; a move leaves the mark.  A throwing special member first scribbles
// over the storage, as a real constructor that fails halfway does.
struct TF {
    int v; int pad = 7;
    TF(int x) : v(-77) { burn(); v = x; ++ev.vc; born(this); }
    TF(const TF& o) : v(-77) { alive(std::addressof(o), "copied from"); burn(); v = o.v; ++ev.cc; born(this); }
    TF(TF&& o) : v(-77) { alive(std::addressof(o), "moved from"); burn(); v = o.v; o.v = MOVED; ++ev.mc; born(this); }
    TF& operator=(const TF& o) { alive(this, "assigned to"); alive(std::addressof(o), "assigned from"); burn(); v = o.v; ++ev.ca; return *this; }
    TF& operator=(TF&& o) { alive(this, "assigned to"); alive(std::addressof(o), "assigned from"); burn(); if (this != std::addressof(o)) { v = o.v; o.v = MOVED; } ++ev.ma; return *this; }
    ~TF() { dead(this); ++ev.d; v = -88; }
    // nobody who is generic takes the address with &, or relies on the comma
    void operator&() const = delete; template<class X> void operator,(X&&) const = delete;
    friend bool operator==(const TF& a, const TF& b) { return a.v == b.v; }
    friend bool operator!=(const TF& a, const TF& b) { return a.v != b.v; }
    friend bool operator<(const TF& a, const TF& b) { return a.v < b.v; }
    friend bool operator>(const TF& a, const TF& b) { return a.v > b.v; }
    friend bool operator<=(const TF& a, const TF& b) { return a.v <= b.v; }
    friend bool operator>=(const TF& a, const TF& b) { return a.v >= b.v; }
};
// The same with in-place levels supplied by user traits (value -1, -2, -3: levels 0, 1, 2).
struct TN : TF { using TF::TF; };
// Noexcept moves
struct TNM : TF {
    using TF::TF; TNM(const TNM&) = default; TNM& operator=(const TNM&) = default;
    TNM(TNM&& o) noexcept : TF(static_cast<TF&&>(o)) {}
    TNM& operator=(TNM&& o) noexcept { TF::operator=(static_cast<TF&&>(o)); return *this; }
};
// move only
struct TM : TF { using TF::TF; TM(const TM&) = delete; TM& operator=(const TM&) = delete; TM(TM&&) = default; TM& operator=(TM&&) = default; };
struct TMN : TF { using TF::TF; TMN(const TMN&) = delete; TMN& operator=(const TMN&) = delete; TMN(TMN&&) = default; TMN& operator=(TMN&&) = default; };
// neither copied nor moved
struct TI : TF { using TF::TF; TI(const TI&) = delete; TI& operator=(const TI&) = delete; };
struct TIN : TF { using TF::TF; TIN(const TIN&) = delete; TIN& operator=(const TIN&) = delete; };
// copied and moved but never assigned
struct TA : TF { using TF::TF; TA(const TA&) = default; TA(TA&&) = default; TA& operator=(const TA&) = delete; TA& operator=(TA&&) = delete; };
struct AggT { TF x; int y; };           // aggregate of a tracked
struct AggN { TN x; int y; };

// Each special member trivial (1) or counted (0), destructor as well; moves keep their source.
#define H_CC0(N) N(const N& o) : v(-77) { burn(); v = o.v; ++ev.cc; }
#define H_CC1(N) N(const N&) = default;
#define H_CA0(N) N& operator=(const N& o) { burn(); v = o.v; ++ev.ca; return *this; }
#define H_CA1(N) N& operator=(const N&) = default;
#define H_MC0(N) N(N&& o) : v(-77) { burn(); v = o.v; ++ev.mc; }
#define H_MC1(N) N(N&&) = default;
#define H_MA0(N) N& operator=(N&& o) { burn(); v = o.v; ++ev.ma; return *this; }
#define H_MA1(N) N& operator=(N&&) = default;
#define H_D0(N) ~N() { ++ev.d; }
#define H_D1(N) ~N() = default;
#define H_TRIV(cc, ca, mc, ma, d) \
    struct Q##cc##ca##mc##ma##d { int v; static constexpr int mask[5] = {cc, ca, mc, ma, d}; \
        Q##cc##ca##mc##ma##d(int x) : v(-77) { burn(); v = x; ++ev.vc; } \
        H_CC##cc(Q##cc##ca##mc##ma##d) H_CA##ca(Q##cc##ca##mc##ma##d) H_MC##mc(Q##cc##ca##mc##ma##d) H_MA##ma(Q##cc##ca##mc##ma##d) H_D##d(Q##cc##ca##mc##ma##d) }; \
    struct N##cc##ca##mc##ma##d { int v; static constexpr int mask[5] = {cc, ca, mc, ma, d}; \
        N##cc##ca##mc##ma##d(int x) : v(-77) { burn(); v = x; ++ev.vc; } \
        H_CC##cc(N##cc##ca##mc##ma##d) H_CA##ca(N##cc##ca##mc##ma##d) H_MC##mc(N##cc##ca##mc##ma##d) H_MA##ma(N##cc##ca##mc##ma##d) H_D##d(N##cc##ca##mc##ma##d) };
#define H_TRIV_D(d) \
    H_TRIV(0,0,0,0,d) H_TRIV(0,0,0,1,d) H_TRIV(0,0,1,0,d) H_TRIV(0,0,1,1,d) \
    H_TRIV(0,1,0,0,d) H_TRIV(0,1,0,1,d) H_TRIV(0,1,1,0,d) H_TRIV(0,1,1,1,d) \
    H_TRIV(1,0,0,0,d) H_TRIV(1,0,0,1,d) H_TRIV(1,0,1,0,d) H_TRIV(1,0,1,1,d) \
    H_TRIV(1,1,0,0,d) H_TRIV(1,1,0,1,d) H_TRIV(1,1,1,0,d) H_TRIV(1,1,1,1,d)
H_TRIV_D(0)
H_TRIV_D(1)

// ---------------------------------------------------------------- categories
template<class X> struct cat_of { static constexpr const char* value = "r"; };
template<class X> struct cat_of<X&> { static constexpr const char* value = "l"; };
template<class X> struct cat_of<const X&> { static constexpr const char* value = "cl"; };
template<class X> struct cat_of<const X> { static constexpr const char* value = "cr"; };
template<class X> struct cat_of<const X&&> { static constexpr const char* value = "cr"; };
template<class X> struct cat_of<X&&> { static constexpr const char* value = "r"; };

// ---------------------------------------------------------------- scripts and output
struct Line { std::string op; std::vector<long long> a; };
inline std::vector<Line> read_script(const char* path) {
    std::vector<Line> r; std::ifstream in(path); std::string s;
    while (std::getline(in, s)) {
        std::istringstream is(s); Line l; is >> l.op; long long x;
        while (is >> x) l.a.push_back(x);
        if (!l.op.empty()) r.push_back(l);
    }
    return r;
}
inline std::string js(const std::string& s) {
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { r += ' '; } else r += c; }
    return r + "\"";
}
} // namespace H

template<class T>
inline constexpr bool custom_niche = false;
#define H_NICHE3(T) \
    template<> struct opt::option_traits<T> { \
        static constexpr std::uintmax_t max_level = 3; \
        static constexpr std::uintmax_t get_level(const T* p) noexcept { return p->v <= -1 && p->v >= -3 ? std::uintmax_t(-1 - p->v) : std::uintmax_t(-1); } \
        static constexpr void set_level(T* p, std::uintmax_t l) noexcept { p->v = -1 - int(l); } \
    };
// For the throwing type the scribbled value -77 is not a level: a half-built object reads as a value.
H_NICHE3(H::TN) H_NICHE3(H::TMN) H_NICHE3(H::TIN)
#define H_NICHE_ALL(d) \
    H_NICHE3(H::N0000##d) H_NICHE3(H::N0001##d) H_NICHE3(H::N0010##d) H_NICHE3(H::N0011##d) \
    H_NICHE3(H::N0100##d) H_NICHE3(H::N0101##d) H_NICHE3(H::N0110##d) H_NICHE3(H::N0111##d) \
    H_NICHE3(H::N1000##d) H_NICHE3(H::N1001##d) H_NICHE3(H::N1010##d) H_NICHE3(H::N1011##d) \
    H_NICHE3(H::N1100##d) H_NICHE3(H::N1101##d) H_NICHE3(H::N1110##d) H_NICHE3(H::N1111##d)
H_NICHE_ALL(0)
H_NICHE_ALL(1)
