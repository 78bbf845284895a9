// Replays behaviours of spec/Iter.tla.  -DIT_T=element.   usage: iter SCRIPT 0
#include "val.hpp"
#include <algorithm>
#include <iterator>
#if __cplusplus >= 202002L
#include <ranges>
#include <span>
#endif
using namespace H;
static std::string res; static bool ran = true;
static void add(long long x) { res += (res.empty() ? "" : ",") + std::to_string(x); }
template<class T> static int go(const char* path) {
    using O = opt::option<T>; using E = std::remove_reference_t<T>;
    using I = typename O::iterator; using K = typename O::const_iterator;
    constexpr bool writes = std::is_assignable_v<E&, E> && !std::is_const_v<E>;
    static_assert(std::is_same_v<decltype(std::declval<O&>().begin()), I> && std::is_same_v<decltype(std::declval<O&>().end()), I> && std::is_same_v<decltype(std::declval<const O&>().begin()), K> && std::is_same_v<decltype(std::declval<const O&>().end()), K>);
    static_assert(std::is_convertible_v<I, K> && (std::is_same_v<I, K> || !std::is_convertible_v<K, I>));
    static_assert(std::is_same_v<decltype(*std::declval<I&>()), E&> && std::is_same_v<decltype(*std::declval<const K&>()), std::remove_reference_t<const T>&> && std::is_same_v<decltype(std::declval<I&>().operator->()), E*> && std::is_same_v<decltype(std::declval<K&>()[0]), std::remove_reference_t<const T>&>);
    static_assert(std::is_same_v<typename std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag> && std::is_same_v<typename std::iterator_traits<I>::reference, E&> && std::is_same_v<typename std::iterator_traits<I>::difference_type, std::ptrdiff_t> && std::is_same_v<typename std::iterator_traits<I>::pointer, E*>);
    static_assert(std::is_nothrow_default_constructible_v<I> && std::is_trivially_copyable_v<I> && std::is_trivially_destructible_v<K>);
#if __cplusplus >= 202002L
    static_assert(std::contiguous_iterator<I> && std::contiguous_iterator<K> && std::ranges::contiguous_range<O&> && std::ranges::contiguous_range<const O&> && std::ranges::sized_range<O&> && std::ranges::common_range<O&> && std::sized_sentinel_for<I, I>);
    static_assert(std::random_access_iterator<I> && std::output_iterator<I, E> == (writes && std::is_move_assignable_v<E>));
#endif
    O o;
    I a{}, b{}; K k{};
    auto pos = [&](auto x) -> int {
        using X = decltype(x);
        const bool nul = x == X{};
        if (!o.has_value()) { if (!nul || x != X{}) fail("an iterator points into an empty option"); return -1; }
        if (nul) return -1;
        X b0 = o.begin(), e0 = o.end();
        if (x == b0) { if (x == e0 || std::addressof(*x) != std::addressof(o.get())) fail("an iterator points to something else"); return 0; }
        if (x == e0) return 1;
        return 7;
    };
    using R = std::remove_cv_t<E>;
    auto code = [&](auto& x) { return vcode<R>(x); };
    auto make = [](int v) -> decltype(auto) { if constexpr (std::is_reference_v<T>) { static R holder = V<R>::make(1); if constexpr (std::is_move_assignable_v<R>) holder = V<R>::make(v); return static_cast<T>(holder); } else return V<R>::make(v); };
    for (auto& L : read_script(path)) {
        res.clear(); ran = true; ev = {};
        std::vector<std::string> p; { std::istringstream is(L.op); std::string x; while (std::getline(is, x, '_')) p.push_back(x); }
        auto A = [&](std::size_t n) { return int(L.a.at(n)); };
        auto with = [&](const std::string& n, auto&& f) { if (n == "a") f(a); else if (n == "b") f(b); else f(k); };
        auto with2 = [&](auto&& f) { with(p[1], [&](auto& x) { with(p[2], [&](auto& y) { if constexpr (std::is_same_v<K, std::decay_t<decltype(x)>> || std::is_same_v<I, std::decay_t<decltype(y)>>) f(x, y); else ran = false; }); }); };
        const std::string& op = p[0];
        if (op == "emplace") { if constexpr (std::is_reference_v<T>) o.emplace(make(A(0))); else PL<R>::args(A(0), [&](auto&&... x) { o.emplace(std::forward<decltype(x)>(x)...); }); a = b = I{}; k = K{}; }
        else if (op == "reset") { o.reset(); a = b = I{}; k = K{}; }
        else if (op == "assign") { if constexpr (writes && !std::is_reference_v<T>) o = make(A(0)); else ran = false; }
        else if (op == "begin") { if (p[1] == "a") a = o.begin(); else if (p[1] == "b") b = o.begin(); else k = std::as_const(o).begin(); }
        else if (op == "end") { if (p[1] == "a") a = o.end(); else if (p[1] == "b") b = o.end(); else k = std::as_const(o).end(); }
        else if (op == "def") with(p[1], [&](auto& x) { using X = std::decay_t<decltype(x)>; X y{}; x = y; });
        else if (op == "copy") with2([&](auto& x, auto& y) { x = y; });
        else if (op == "preinc") with(p[1], [&](auto& x) { if (&++x != &x) fail("not itself"); });
        else if (op == "predec") with(p[1], [&](auto& x) { if (&--x != &x) fail("not itself"); });
        else if (op == "postinc") with(p[1], [&](auto& x) { auto y = x++; add(pos(y)); });
        else if (op == "postdec") with(p[1], [&](auto& x) { auto y = x--; add(pos(y)); });
        else if (op == "pluseq") with(p[1], [&](auto& x) { if (&(x += A(0)) != &x) fail("not itself"); });
        else if (op == "minuseq") with(p[1], [&](auto& x) { if (&(x -= A(0)) != &x) fail("not itself"); });
        else if (op == "advance") with(p[1], [&](auto& x) { auto y = std::next(x, A(0)); std::advance(x, A(0)); if (y != x) fail("next and advance disagree"); });
        else if (op == "plus") with(p[1], [&](auto& x) { const auto& c = x; auto y = c + A(0); add(pos(y)); });
        else if (op == "plusl") with(p[1], [&](auto& x) { const auto& c = x; auto y = A(0) + c; add(pos(y)); });
        else if (op == "minus") with(p[1], [&](auto& x) { const auto& c = x; auto y = c - A(0); add(pos(y)); });
        else if (op == "deref") with(p[1], [&](auto& x) { const auto& c = x; if (std::addressof(*c) != std::addressof(o.get())) fail("another object"); add(code(*c)); });
        else if (op == "arrow") with(p[1], [&](auto& x) { const auto& c = x; if (c.operator->() != std::addressof(o.get())) fail("another object"); add(code(*c.operator->())); });
        else if (op == "index") with(p[1], [&](auto& x) { const auto& c = x; if (std::addressof(c[A(0)]) != std::addressof(o.get())) fail("another object"); add(code(c[A(0)])); });
        else if (op == "write") { if constexpr (writes) { I& x = p[1] == "a" ? a : b; *x = V<R>::make(A(0)); } else ran = false; }
        else if (op == "writeat") { if constexpr (writes) { I& x = p[1] == "a" ? a : b; x[A(0)] = V<R>::make(A(1)); } else ran = false; }
        else if (op == "dist") with2([&](auto& x, auto& y) { using X = std::decay_t<decltype(x)>; add(x - y); if (std::distance(X(y), x) != x - y) fail("distance and - disagree"); });
        else if (op == "compare") with2([&](auto& x, auto& y) { const auto& c = x; add(c == y); add(c != y); add(c < y); add(c <= y); add(c > y); add(c >= y); });
        else if (op == "address") with(p[1], [&](auto& x) {
#if __cplusplus >= 202002L
            auto* q = std::to_address(x);
            add(q == nullptr ? -1 : o.has_value() && q == std::addressof(o.get()) ? 0 : o.has_value() && q == std::addressof(o.get()) + 1 ? 1 : 7);
#else
            add(pos(x));
#endif
        });
        else if (op == "between") with2([&](auto& x, auto& y) { K e = y; int n = 0; for (K i = x; i != e && n < 3; ++i, ++n) add(code(*i)); if (n != std::distance(K(x), e)) fail("a wrong number of elements"); });
        else if (op == "each") {
            const std::string& w = p[1]; int n = 0;
            if (w == "write") { if constexpr (writes) for (auto& x : o) { x = V<R>::make(A(0)); if (++n > 2) break; } else ran = false; }
            else if (w == "for") for (auto& x : o) { add(code(x)); if (++n > 2) break; }
            else if (w == "cfor") for (const auto& x : std::as_const(o)) { add(code(x)); if (++n > 2) break; }
            else if (w == "less") for (auto x = o.begin(); x < o.end() && n < 3; ++x, ++n) { add(code(*x)); if (!(o.end() > x) || x >= o.end() || o.end() <= x) fail("order"); }
            else if (w == "back") { auto x = o.end(); while (x != o.begin() && n < 3) { --x; ++n; add(code(*x)); } }
            else if (w == "reverse") { std::reverse_iterator<I> x(o.end()), e(o.begin()); for (; x != e && n < 3; ++x, ++n) add(code(*x)); }
            else if (w == "copy") {
                std::for_each(o.begin(), o.end(), [&](auto& x) { add(code(x)); });
                if (std::count_if(o.begin(), o.end(), [](auto&) { return true; }) != int(o.has_value()) || std::any_of(o.begin(), o.end(), [](auto&) { return true; }) != o.has_value() || o.begin() + o.has_value() != o.end()) fail("an algorithm sees something else");
                if constexpr (writes) std::reverse(o.begin(), o.begin() + 0);
                if (std::partition_point(o.begin(), o.end(), [](auto&) { return true; }) != o.end() || std::find_if(o.begin(), o.end(), [](auto&) { return false; }) != o.end()) fail("an algorithm sees something else");
            }
            else if (w == "views") {
#if __cplusplus >= 202002L
                for (auto& x : o | std::views::take(3) | std::views::reverse) { add(code(x)); if (++n > 2) break; }
                for (auto& x : o | std::views::drop(1)) { (void)x; fail("a dropped element"); }
                std::span<E> s(o); std::span<std::remove_reference_t<const T>> q(std::as_const(o));
                if (s.size() != o.has_value() || q.size() != s.size() || std::ranges::data(o) != s.data() || std::ranges::size(o) != s.size() || std::ranges::empty(o) != !o.has_value()) fail("a view sees something else");
                if (o && (s.data() != std::addressof(o.get()) || q.data() != s.data())) fail("a span sees something else");
                if (std::ranges::distance(o) != int(o.has_value()) || std::ranges::next(o.begin(), o.end()) != o.end()) fail("a range algorithm sees something else");
#else
                for (auto& x : o) add(code(x));
#endif
            }
            else ran = false;
        }
        else ran = false;
        const int c = o.has_value() ? code(o.get()) : 0;
        std::printf("{\"t\":[%d,%d,%d,%d],\"res\":[%s]%s", c, pos(a), pos(b), pos(k), res.c_str(), ran ? "" : ",\"skip\":1");
        if (!err().empty()) std::printf(",\"err\":%s", js(err()).c_str());
        std::puts("}"); err().clear(); std::fflush(stdout);
    }
    o.reset();
    std::printf("{\"end\":true,\"err\":%s}\n", js(live().empty() ? err() : err() + "objects are left").c_str());
    return 0;
}
int main(int, char** argv) { return go<IT_T>(argv[1]); }
