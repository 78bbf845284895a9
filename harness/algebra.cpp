// Replays behaviours of spec/Algebra.tla: operators |, |=, &, ^ on three options.   usage: algebra SCRIPT 0
#include "val.hpp"
using namespace H;
#ifndef ALG_T
#error ALG_T
#endif
struct Unrelated { std::string s = "x"; };
template<class T> int go(const char* path) {
    using O = opt::option<T>;
    constexpr bool REF = std::is_reference_v<T>, CONSTT = std::is_const_v<T>;
    constexpr bool COPY = REF || copyable<T>;
    alignas(O) static unsigned char mem[3][sizeof(O)];
    auto at = [&](int i) -> O& { return *std::launder(reinterpret_cast<O*>(mem[i - 1])); };
    for (int i = 1; i <= 3; ++i) { std::memset(mem[i - 1], 0xA5, sizeof(O)); ::new (mem[i - 1]) O(); }
    auto code = [&](const O& o) { return o.has_value() ? V<T>::code(const_cast<std::remove_const_t<std::remove_reference_t<T>>&>(o.get())) : 0; };
    auto make = [](int v) -> decltype(auto) { return V<T>::make(v); };
    for (auto& L : read_script(path)) {
        std::fflush(stdout);
        const std::string& op = L.op;
        auto A = [&](std::size_t k) { return int(L.a.at(k)); };
        std::string res; bool ran = true;
        Ev e;
        // a result: an option (which must be a new object) or a value
        auto take = [&](auto&& r) {
            e = ev;
            using X = std::remove_cv_t<std::remove_reference_t<decltype(r)>>;
            if constexpr (std::is_same_v<X, O> && !std::is_same_v<X, T>) res = std::to_string(code(r));
            else { static_assert(std::is_same_v<X, std::remove_cv_t<std::remove_reference_t<T>>>); res = std::to_string(V<T>::code(r)); }
        };
        auto is = [&](const std::string& s) { return op == s; };
        // f(operand) in the category named c
        auto with = [&](const std::string& c, auto& o, auto&& f) {
            if (c == "r") f(std::move(o));
            else if constexpr (COPY) { if (c == "l") f(o); else if (c == "cl") f(std::as_const(o)); else if (c == "cr") f(std::move(std::as_const(o))); else ran = false; }
            else ran = false;
        };
        auto split = [&](std::vector<std::string>& p) { std::istringstream is(op); std::string x; while (std::getline(is, x, '_')) p.push_back(x); };
        std::vector<std::string> p; split(p);
        auto apply = [&](const std::string& o, auto&& a, auto&& b) {
            using FA = decltype(a); using FB = decltype(b);
            ev = {};
            if (o == "or") take(static_cast<FA>(a) | static_cast<FB>(b));
            else if (o == "and") take(static_cast<FA>(a) & static_cast<FB>(b));
            else if (o == "xor") take(static_cast<FA>(a) ^ static_cast<FB>(b));
            else ran = false;
        };
        const int i = A(0);
        if (is("set")) { if (A(1)) at(i).emplace(make(A(1))); else at(i).reset(); ev = {}; e = ev; }
        else if (p[0] == "orv") {
            auto&& x = make(A(1));
            with(p[1], at(i), [&](auto&& a) {
                using FA = decltype(a);
                auto go1 = [&](auto&& y) { ev = {}; if constexpr (REF) { T r = static_cast<FA>(a) | y; take(r); } else if constexpr (opt::is_option_v<T>) { /* | with an option is selection among options */ auto r = static_cast<FA>(a).value_or(static_cast<decltype(y)>(y)); take(r); } else { auto r = static_cast<FA>(a) | static_cast<decltype(y)>(y); take(r); } };
                if constexpr (REF) go1(x);
                else if (p[2] == "r") go1(std::move(x));
                else if constexpr (COPY) go1(std::as_const(x));
            });
        }
        else if (p[0] == "oreq" && p[1] == "none") { ev = {}; O& r = (at(i) |= opt::none); e = ev; res = std::to_string(&r == &at(i) ? i : -1); }
        else if (p[0] == "oreq") { if constexpr (!CONSTT) with(p[1], at(A(1)), [&](auto&& b) { ev = {}; O& r = (at(i) |= static_cast<decltype(b)>(b)); e = ev; res = std::to_string(&r == &at(i) ? i : -1); }); }
        else if (p[0] == "oreqv") {
            auto&& x = make(A(1));
            if constexpr (!CONSTT) {
                auto go1 = [&](auto&& y) { ev = {}; O& r = (at(i) |= static_cast<decltype(y)>(y)); e = ev; res = std::to_string(&r == &at(i) ? i : -1); };
                if constexpr (REF) go1(x);
                else if (p[1] == "r") go1(std::move(x));
                else if constexpr (COPY) go1(std::as_const(x));
            }
        }
        else if (p[0] == "andx") {
            const opt::option<Unrelated> u = A(0) ? opt::option<Unrelated>{Unrelated{}} : opt::option<Unrelated>{};
            with(p[1], at(A(1)), [&](auto&& b) { ev = {}; take(u & static_cast<decltype(b)>(b)); });
        }
        else if (p[1] == "chain") {
            if constexpr (COPY) {
                const O &a = at(1), &b = at(2), &c = at(3);
                if (p[2] == "l") { if (p[0] == "or") take(a | b | c); else if (p[0] == "and") take(a & b & c); else take(a ^ b ^ c); }
                else { if (p[0] == "or") take(a | (b | c)); else if (p[0] == "and") take(a & (b & c)); else take(a ^ (b ^ c)); }
            }
        }
        else if (p[1] == "none") {
            with(p[3], at(i), [&](auto&& a) { if (p[2] == "l") apply(p[0], O(), static_cast<decltype(a)>(a)); else apply(p[0], static_cast<decltype(a)>(a), O(opt::none)); });
        }
        else with(p[1], at(i), [&](auto&& a) { with(p[2], at(A(1)), [&](auto&& b) { apply(p[0], static_cast<decltype(a)>(a), static_cast<decltype(b)>(b)); }); });
        std::printf("{\"t\":[%d,%d,%d],\"res\":[%s],\"ev\":[%d,%d,%d,%d],\"live\":%d%s", code(at(1)), code(at(2)), code(at(3)), res.c_str(), e.cc, e.mc, e.ca, e.ma, int(live().size()), ran ? "" : ",\"skip\":1");
        if (!err().empty()) std::printf(",\"err\":%s", js(err()).c_str());
        std::puts("}"); err().clear();
    }
    for (int i = 1; i <= 3; ++i) at(i).~O();
    std::printf("{\"end\":true,\"live\":%d,\"err\":%s}\n", int(live().size()), js(err()).c_str());
    return 0;
}
int main(int argc, char** argv) { return argc < 2 ? 2 : go<ALG_T>(argv[1]); }
