// Replays behaviours of spec/OptionNest.tla on D-deep nested options.   usage: nest NAME SCRIPT
#include "payload.hpp"
using namespace H;
constexpr int VAL = 100;
template<class T, int R> struct nest_t { using type = opt::option<typename nest_t<T, R - 1>::type>; };
template<class T> struct nest_t<T, 0> { using type = T; };
template<class T, int R> using nest = typename nest_t<T, R>::type;
template<int N> using I_ = std::integral_constant<int, N>;

template<class T> struct PLX : PL<T> {};
template<> struct PLX<int&> { static int& make(int k) { return objs[k]; } static int code(int& x) { return int(&x - objs); } };

template<class T, int D> struct Nest {
    using O = nest<T, D>;
    static constexpr bool can_copy = std::is_reference_v<T> || copyable<T>;
    struct Cell { unsigned char pre[16]; alignas(O) unsigned char buf[sizeof(O)]; unsigned char post[16]; } cell[2];
    unsigned tick = 0; int res = -1;
    O& at(int i) { return *std::launder(reinterpret_cast<O*>(cell[i - 1].buf)); }
    void wipe(int i) { static const unsigned char p[] = {0x00, 0xFF, 0xA5, 0x01}; std::memset(cell[i - 1].buf, p[tick++ % 4], sizeof(O)); }
    template<class F> void remake(int i, F&& f) { at(i).~O(); wipe(i); f(static_cast<void*>(cell[i - 1].buf)); }
    Nest() { for (int i = 1; i <= 2; ++i) { std::memset(cell[i - 1].pre, 0x5C, 16); std::memset(cell[i - 1].post, 0xC5, 16); wipe(i); ::new (cell[i - 1].buf) O; } }
    ~Nest() { for (int i = 1; i <= 2; ++i) at(i).~O(); }

    template<int R> static decltype(auto) build(int e) {
        if constexpr (R == 0) return PLX<T>::make(e - VAL);
        else { if (e == D - R) return nest<T, R>(); return nest<T, R>(std::in_place, build<R - 1>(e)); }
    }
    template<int R, class X> static int code(X& x) {
        if constexpr (R == 0) return VAL + PLX<T>::code(x);
        else {
            const auto& c = x;
            const bool h = c.has_value();
            if (bool(c) != h || (c == opt::none) == h || (c.ptr_or_null() != nullptr) != h || (c.begin() != c.end()) != h) fail("observers disagree at depth " + std::to_string(D - R));
            if (!h) return D - R;
            return code<R - 1>(*x);
        }
    }
    // f(integral_constant R, option at depth d)
    template<int R, class F> static void at_depth(nest<T, R>& o, int d, F&& f) {
        if (d == 0) { f(I_<R>{}, o); return; }
        if constexpr (R > 1) at_depth<R - 1>(*o, d - 1, f);
        else fail("no such depth");
    }
    bool run(const Line& L) {
        const std::string& op = L.op;
        auto A = [&](std::size_t k) { return int(L.a.at(k)); };
        auto is = [&](const char* s) { return op == s; };
        const int i = A(0); O& o = at(i);
        res = -1; bool known = true;
        if (is("ctor_none")) remake(i, [&](void* m) { if (tick & 1) ::new (m) O; else ::new (m) O(opt::none); });
        else if (is("ctor_copy")) { if constexpr (can_copy) { const O& s = at(A(1)); remake(i, [&](void* m) { ::new (m) O(s); }); } }
        else if (is("ctor_move")) { O& s = at(A(1)); remake(i, [&](void* m) { ::new (m) O(std::move(s)); }); }
        else if (is("ctor_inner")) { auto&& x = build<D - 1>(A(1)); remake(i, [&](void* m) { if constexpr (std::is_reference_v<T> && D == 1) ::new (m) O(x); else if constexpr (can_copy) { if (tick & 1) ::new (m) O(x); else ::new (m) O(std::move(x)); } else ::new (m) O(std::move(x)); }); }
        else if (is("ctor_inplace")) { auto&& x = build<D - 1>(A(1)); remake(i, [&](void* m) { if constexpr (std::is_reference_v<T> && D == 1) ::new (m) O(std::in_place, x); else ::new (m) O(std::in_place, std::move(x)); }); }
        else if (is("ctor_value")) { auto&& x = build<0>(A(1)); remake(i, [&](void* m) { if constexpr (std::is_reference_v<T>) ::new (m) O(x); else if constexpr (can_copy) { if (tick & 1) ::new (m) O(x); else ::new (m) O(std::move(x)); } else ::new (m) O(std::move(x)); }); }
        else at_depth<D>(o, A(1), [&](auto rc, auto& p) {
            constexpr int R = decltype(rc)::value;
            using P = nest<T, R>;
            if (is("reset")) p.reset();
            else if (is("assign_none")) p = opt::none;
            else if (is("assign_l")) { if constexpr (can_copy) { const P x = build<R>(A(2)); p = x; if (code<R>(x) != A(2)) fail("source changed"); } }
            else if (is("assign_r")) p = build<R>(A(2));
            else if (is("assign_inner_l")) { if constexpr (can_copy) { auto&& x = build<R - 1>(A(2)); p = x; if (code<R - 1>(x) != A(2)) fail("source changed"); } }
            else if (is("assign_inner_r")) p = build<R - 1>(A(2));
            else if (is("assign_value")) p = build<0>(A(2));
            else if (is("emplace_inner")) { auto&& r = p.emplace(build<R - 1>(A(2))); if (std::addressof(r) != std::addressof(*p)) fail("emplace returned another object"); }
            else if (is("emplace_default")) { if constexpr (R > 1) p.emplace(); }
            else if (is("emplace_none")) { if constexpr (R > 1) p.emplace(opt::none); }
            else if (is("try_emplace_inner")) { auto&& r = p.try_emplace(build<R - 1>(A(2))); if (std::addressof(r) != std::addressof(*p)) fail("try_emplace returned another object"); }
            else if (is("take")) { auto t = p.take(); res = code<R>(t); }
            else if (is("map_code")) res = p.map_or(D - R, [](auto& x) { return code<R - 1>(x); });
            else {
                const int j = A(2);
                // the option at the same depth (or one deeper) of the other slot
                at_depth<D>(at(j), is("copy_inner_from") || is("move_inner_from") ? A(1) + 1 : A(1), [&](auto rc2, auto& q) {
                    constexpr int R2 = decltype(rc2)::value;
                    if constexpr (R2 == R) {
                        if (is("take_into")) q = p.take();
                        else if (is("swap")) { if (tick++ & 1) p.swap(q); else { using std::swap; swap(p, q); } }
                        else if (is("copy_from")) { if constexpr (can_copy) { const P& cq = q; p = cq; } }
                        else if (is("move_from")) p = std::move(q);
                        else known = false;
                    } else if constexpr (R2 == R - 1) {
                        if (is("copy_inner_from")) { if constexpr (can_copy) p = q; }
                        else if (is("move_inner_from")) p = std::move(q);
                        else known = false;
                    } else known = false;
                });
            }
        });
        return known;
    }
    void print(bool ran) {
        std::string out = "{\"t\":[" + std::to_string(code<D>(at(1))) + "," + std::to_string(code<D>(at(2))) + "],\"res\":" + std::to_string(res) + ",\"live\":" + std::to_string(live().size());
        for (auto& c : cell) for (int k = 0; k < 16; ++k) if (c.pre[k] != 0x5C || c.post[k] != 0xC5) { fail("wrote outside of itself"); break; }
        if (!ran) out += ",\"skip\":true";
        if (!err().empty()) out += ",\"err\":" + js(err());
        err().clear();
        std::puts((out + "}").c_str());
    }
};
template<class T, int D> int main_for(const std::vector<Line>& s) {
    { Nest<T, D> n; for (auto& l : s) { std::fflush(stdout); bool ok = n.run(l); n.print(ok); } }
    std::printf("{\"end\":true,\"live\":%d,\"err\":%s}\n", int(live().size()), js(err()).c_str());
    return 0;
}
template<class> struct unparen; template<class T> struct unparen<void(T)> { using type = T; };
using S_2 = opt::sentinel<int, -1, -300>;
struct Entry { const char* name; int (*fn)(const std::vector<Line>&); };
#ifndef NEST_TYPES
#error NEST_TYPES
#endif
// N(name, type, depth, kind, spare, ledger)
#define N(NAME, T, D, KIND, L, LED) {NAME "_" #D, &main_for<typename unparen<void T>::type, D>},
static const Entry entries[] = {
#include NEST_TYPES
};
int main(int argc, char** argv) {
    for (auto& e : entries) if (argc == 3 && std::string(argv[1]) == e.name) return e.fn(read_script(argv[2]));
    return 2;
}
