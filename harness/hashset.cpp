// Replays behaviours of spec/HashSet.tla: hashes of options reached by different routes, sets of options.
// -DHT=type, -DREFT for reference types (HT the object type).   usage: hashset SCRIPT 0
#include "payload.hpp"
#include <unordered_set>
using namespace H;
struct NoDel { template<class X> void operator()(X*) const {} };
using UP = std::unique_ptr<int, NoDel>;
struct Thrower { int v; friend bool operator==(Thrower a, Thrower b) { return a.v == b.v; } };
template<> struct std::hash<TF> { std::size_t operator()(const TF& x) const noexcept { alive(std::addressof(x), "hashed"); return std::size_t(x.v) * 2654435761u + 5; } };
template<> struct std::hash<TN> { std::size_t operator()(const TN& x) const { alive(std::addressof(x), "hashed"); return std::size_t(x.v) * 40503u + 1; } };
template<> struct std::hash<TMN> { std::size_t operator()(const TMN& x) const { alive(std::addressof(x), "hashed"); return std::size_t(x.v) * 40503u + 1; } };
template<> struct std::hash<Thrower> { std::size_t operator()(const Thrower& x) const { return std::size_t(x.v) * 3; } };
inline bool operator==(const UP& a, const UP& b) { return a.get() == b.get(); }
template<class T, class = void> struct M { static T make(int k) { return T(k); } };
template<class T> struct M<T, std::enable_if_t<std::is_floating_point_v<T>>> { static T make(int k) { return T(k) * T(0.5); } };
template<> struct M<bool> { static bool make(int k) { return k == 2; } };
template<> struct M<std::string> { static std::string make(int k) { return k == 1 ? "" : std::string(std::size_t(k) * 13, 'x'); } };
template<> struct M<std::string_view> { static std::string_view make(int k) { return k == 1 ? std::string_view{} : k == 2 ? "abc" : "abcd"; } };
template<> struct M<int*> { static int* make(int k) { return k == 1 ? nullptr : objs + k; } };
template<> struct M<UP> { static UP make(int k) { return UP(k == 1 ? nullptr : objs + k); } };
template<> struct M<EAuto> { static EAuto make(int k) { return k == 1 ? EAuto::a : k == 2 ? EAuto::d : EAuto::b; } };
template<> struct M<Thrower> { static Thrower make(int k) { return {k}; } };
template<class T> struct M<const T, void> : M<T> {};
template<class T> struct M<opt::option<T>> { static opt::option<T> make(int k) { return k == 1 ? opt::option<T>{} : opt::option<T>{M<T>::make(k)}; } };
template<class T, bool REF> struct Obj { using Arg = T; };
static int robj[3] = {0, 1, 2};
static double dobj[3] = {0, 1, 2};
template<class O, class T, bool REF, int N> int go(const char* path) {
    auto robjs = [] { if constexpr (std::is_same_v<std::remove_const_t<T>, double>) return dobj; else return robj; }();
    using Hs = std::hash<O>;
    static_assert(std::is_default_constructible_v<Hs> && std::is_copy_constructible_v<Hs> && std::is_copy_assignable_v<Hs>);
    alignas(O) static unsigned char mem[2][sizeof(O)];
    std::memset(mem, 0xA5, sizeof mem);
    O* s[3] = {nullptr, ::new (mem[0]) O(), ::new (mem[1]) O()};
    std::unordered_set<std::conditional_t<REF, opt::option<int>, O>> set;
    auto hashval = [&](int k) -> std::size_t { if constexpr (REF) return std::hash<std::remove_reference_t<T>*>{}(const_cast<std::remove_reference_t<T>*>(&robjs[k])); else return std::hash<std::remove_const_t<T>>{}(M<T>::make(k)); };
    auto make = [&](int k) -> decltype(auto) { if constexpr (REF) { if constexpr (REF && std::is_same_v<O, opt::option<T&&>>) return std::move(robjs[k]); else return (robjs[k]); } else return M<T>::make(k); };
    auto code = [&](const O& o) {
        if (!o.has_value()) return 0;
        for (int k = 1; k <= N; ++k) { if constexpr (REF) { if (std::addressof(o.get()) == std::addressof(robjs[k])) return k; } else { const auto m = M<T>::make(k); if (o.get() == m) return k; } }
        return -1;
    };
    constexpr bool FIX = !REF && !std::is_move_assignable_v<O>;      // no assignment: built anew
    auto set_to = [](O& to, auto&& from) { if constexpr (FIX) { O tmp(static_cast<decltype(from)>(from)); to.~O(); std::memset(static_cast<void*>(&to), 0x69, sizeof(O)); ::new (static_cast<void*>(&to)) O(std::move(tmp)); } else to = static_cast<decltype(from)>(from); };
    for (auto& L : read_script(path)) {
        std::fflush(stdout);
        const std::string& op = L.op;
        auto A = [&](std::size_t k) { return int(L.a.at(k)); };
        std::string res; bool ran = true;
        auto is = [&](const char* x) { return op == x; };
        const int i = L.a.empty() ? 0 : A(0);
        if (is("put_ctor")) { s[i]->~O(); std::memset(s[i], 0xC3, sizeof(O)); ::new (s[i]) O(make(A(1))); }
        else if (is("put_emplace")) s[i]->emplace(make(A(1)));
        else if (is("put_assign")) set_to(*s[i], make(A(1)));
        else if (is("put_twice")) { s[i]->emplace(make(A(1) % N + 1)); s[i]->reset(); s[i]->emplace(make(A(1))); }
        else if (is("put_swapin")) { O o(make(A(1))); if constexpr (FIX) set_to(*s[i], std::move(o)); else s[i]->swap(o); }
        else if (is("put_nested")) { opt::option<O> o{O(make(A(1)))}; set_to(*s[i], std::move(*o)); }
        else if (is("put_copyin")) { if constexpr (copyable<std::conditional_t<REF, int, T>>) { const O o(make(A(1))); set_to(*s[i], o); } }
        else if (is("empty_reset")) s[i]->reset();
        else if (is("empty_none")) { if constexpr (FIX) set_to(*s[i], O(opt::none)); else *s[i] = opt::none; }
        else if (is("empty_take")) (void)s[i]->take();
        else if (is("empty_fresh")) { s[i]->~O(); std::memset(s[i], 0x3C, sizeof(O)); ::new (s[i]) O(opt::none); }
        else if (is("empty_emplaced")) { s[i]->emplace(make(1)); s[i]->reset(); }
        else if (is("copy")) { if constexpr (copyable<std::conditional_t<REF, int, T>>) set_to(*s[A(1)], std::as_const(*s[i])); }
        else if (is("move")) { set_to(*s[A(1)], std::move(*s[i])); s[i]->reset(); }
        else if (is("swap")) { if constexpr (FIX) { O o(std::move(*s[1])); set_to(*s[1], std::move(*s[2])); set_to(*s[2], std::move(o)); } else s[1]->swap(*s[2]); }
        else if (is("write")) { if constexpr (REF) robjs[i] = A(1); }
        else if (is("hash_eq")) res = std::to_string(Hs{}(*s[1]) == Hs{}(*s[2])) + "," + std::to_string(std::as_const(*s[1]) == std::as_const(*s[2]));
        else if constexpr (!REF) {
            if (is("insert")) { if constexpr (copyable<T>) { auto r = set.insert(std::as_const(*s[i])); res = std::to_string(int(r.second)); } }
            else if (is("insert_move")) { auto r = set.insert(std::move(*s[i])); res = std::to_string(int(r.second)); s[i]->reset(); }
            else if (is("erase")) res = std::to_string(set.erase(*s[i]));
            else if (is("find")) { auto it = set.find(*s[i]); res = std::to_string(int(it != set.end())); if (it != set.end() && code(*it) != code(*s[i])) fail("found another element"); }
            else ran = false;
        } else ran = false;
        const int c1 = code(*s[1]), c2 = code(*s[2]);
        std::printf("{\"t\":[%d,%d,[", c1, c2);
        for (int k = 0; k <= N; ++k) {
            int m = 0;
            if constexpr (!REF) for (auto& e : set) if (code(e) == k) ++m;
            std::printf("%s%d", k ? "," : "", m);
        }
        std::printf("],[");
        for (int k = 1; k <= N; ++k) std::printf("%s%d", k > 1 ? "," : "", REF ? int(robjs[k]) : k);
        std::printf("]],\"res\":[%s],\"h\":[", res.c_str());
        for (int j = 1; j <= 2; ++j) {
            // every content whose specified hash this is
            const std::size_t h = Hs{}(*s[j]);
            std::string m;
            if (h == Hs{}(O())) m = "0";
            for (int k = 1; k <= N; ++k) if (h == hashval(k)) m += (m.empty() ? "" : ",") + std::to_string(k);
            std::printf("%s[%s]", j > 1 ? "," : "", m.c_str());
        }
        std::printf("]%s", ran ? "" : ",\"skip\":1");
        if (!err().empty()) std::printf(",\"err\":%s", js(err()).c_str());
        std::puts("}"); err().clear();
    }
    s[1]->~O(); s[2]->~O(); set.clear();
    std::printf("{\"end\":true,\"live\":%d,\"err\":%s}\n", int(live().size()), js(err()).c_str());
    return 0;
}
int main(int, char** argv) { return go<opt::option<HT>, std::remove_reference_t<HT>, std::is_reference_v<HT>, HN>(argv[1]); }
