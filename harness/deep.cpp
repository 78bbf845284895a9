// Replays behaviours of spec/NestDeep.tla on an option nested DEEP_D deep.   usage: deep SCRIPT 0
#include "payload.hpp"
using namespace H;
#ifndef DEEP_T
#error DEEP_T
#endif
using T = DEEP_T;
constexpr int D = DEEP_D;
template<class X, int R> struct nest_t { using type = opt::option<typename nest_t<X, R - 1>::type>; };
template<class X> struct nest_t<X, 0> { using type = X; };
template<class X, int R> using nest = typename nest_t<X, R>::type;
using O = nest<T, D>;
// all accesses go through pointers to the nested options, outermost first
static void* chain[D + 1];
struct Ops { bool (*has)(const void*); void* (*inner)(void*); void (*reset)(void*); void (*emplace)(void*); void (*none)(void*); void (*copy)(void*, const void*); void (*move)(void*, void*); void (*swap)(void*, void*); void (*take)(void*, void*); };
template<int R> struct At {
    using P = nest<T, R>;
    static P& p(void* x) { return *static_cast<P*>(x); }
    static bool has(const void* x) { const P& c = *static_cast<const P*>(x); return c.has_value(); }
    static void* inner(void* x) { if constexpr (R > 1) return std::addressof(p(x).get()); else return nullptr; }
    static void reset(void* x) { p(x).reset(); }
    static void none(void* x) { p(x) = opt::none; }
    static void emplace(void* x) { if constexpr (R > 1) p(x).emplace(); else (void)x; }
    static void copy(void* x, const void* y) { if constexpr (std::is_reference_v<T> || copyable<T>) p(x) = *static_cast<const P*>(y); }
    static void move(void* x, void* y) { p(x) = static_cast<P&&>(p(y)); }
    static void swap(void* x, void* y) { p(x).swap(p(y)); }
    static void take(void* x, void* y) { p(y) = p(x).take(); }
    static constexpr Ops ops{has, inner, reset, emplace, none, copy, move, swap, take};
};
template<int... I> static const Ops* table(std::integer_sequence<int, I...>) { static const Ops t[] = {At<D - I>::ops...}; return t; }
static const Ops* const ops = table(std::make_integer_sequence<int, D>{});    // ops[d]: the option at depth d
struct Cell { unsigned char pre[16]; alignas(O) unsigned char buf[sizeof(O)]; unsigned char post[16]; } cell[2];
constexpr int VAL = 1000;
static opt::option<T>& leaf(void* x) { return *static_cast<opt::option<T>*>(x); }
template<class X> static int leaf_code(opt::option<X>& o) { if constexpr (std::is_reference_v<X>) return int(&o.get() - objs); else return PL<X>::code(o.get()); }
template<class X> static void leaf_set(opt::option<X>& o, int v) { if constexpr (std::is_reference_v<X>) o.emplace(objs[v]); else o.emplace(PL<X>::make(v)); }
static int code(int s) {
    void* x = cell[s].buf;
    for (int d = 0; d < D; ++d) { if (!ops[d].has(x)) return d; if (d < D - 1) x = ops[d].inner(x); }
    return VAL + leaf_code(leaf(x));
}
static void* at(int s, int d) { void* x = cell[s].buf; for (int k = 0; k < d; ++k) { if (!ops[k].has(x)) { fail("depth " + std::to_string(k) + " reads as empty"); return nullptr; } x = ops[k].inner(x); } return x; }
// engage the depths d.. up to c, and store a value if c >= VAL
static void build(void* x, int d, int c) {
    for (; d < D - 1 && d < c; ++d) { ops[d].emplace(x); x = ops[d].inner(x); }
    if (c >= VAL) leaf_set(leaf(x), c - VAL);
}
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    for (auto& c : cell) { std::memset(&c, 0xA5, sizeof c); ::new (c.buf) O; }
    int tick = 0;
    for (auto& L : read_script(argv[1])) {
        std::fflush(stdout);
        const std::string& op = L.op; bool ran = true; int a = L.a.at(0), b = L.a.size() > 1 ? L.a[1] : 0;
        if (op == "renew") { reinterpret_cast<O*>(cell[0].buf)->~O(); std::memset(cell[0].buf, (tick++ & 1) ? 0xFF : 0, sizeof(O)); ::new (cell[0].buf) O; build(cell[0].buf, 0, a); }
        else if (void* x = at(0, a)) {
            if (op == "reset") ops[a].reset(x);
            else if (op == "none") ops[a].none(x);
            else if (op == "fill") { ops[a].reset(x); build(x, a, b); }
            else {
                // the other option gets content b (at least as deep as a) and is used as the operand
                reinterpret_cast<O*>(cell[1].buf)->reset(); build(cell[1].buf, 0, b);
                if (void* y = at(1, a)) {
                    if (op == "copy") { ops[a].copy(x, y); if (code(1) != b) fail("source changed"); }
                    else if (op == "move") ops[a].move(x, y);
                    else if (op == "swap") ops[a].swap(x, y);
                    else if (op == "take") { const int was = code(0); ops[a].take(x, y); if (code(1) != was) fail("take returned another content"); }
                    else ran = false;
                }
            }
        }
        for (auto& c : cell) for (int k = 0; k < 16; ++k) if (c.pre[k] != 0xA5 || c.post[k] != 0xA5) { fail("wrote outside of itself"); break; }
        std::printf("{\"t\":%d,\"res\":0%s%s}\n", code(0), ran ? "" : ",\"skip\":true", err().empty() ? "" : (",\"err\":" + js(err())).c_str());
        err().clear();
    }
    for (auto& c : cell) reinterpret_cast<O*>(c.buf)->~O();
    std::printf("{\"end\":true,\"size\":%d}\n", int(sizeof(O)));
}
