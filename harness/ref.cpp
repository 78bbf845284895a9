// Options of references: -DVARIANT selects the type; replays behaviours of spec/RefOption.tla.
#include "common.hpp"
#ifndef VARIANT
#define VARIANT 0
#endif
#define NOBJ 3
static int nobj = 2;     // argv[2]: 0 for the small, 1 for the large specification
using namespace H;

static int copies = 0;
struct Track {
    int v = 0;
    Track() = default;
    Track(const Track& o) : v(o.v) { ++copies; }
    Track(Track&& o) : v(o.v) { o.v = -5; ++copies; }
    Track& operator=(const Track& o) { v = o.v; ++copies; return *this; }
    Track& operator=(Track&& o) { v = o.v; o.v = -5; ++copies; return *this; }
    friend bool operator==(const Track& a, const Track& b) { return a.v == b.v; }
    friend bool operator!=(const Track& a, const Track& b) { return a.v != b.v; }
    friend bool operator<(const Track& a, const Track& b) { return a.v < b.v; }
    friend bool operator>(const Track& a, const Track& b) { return a.v > b.v; }
    friend bool operator<=(const Track& a, const Track& b) { return a.v <= b.v; }
    friend bool operator>=(const Track& a, const Track& b) { return a.v >= b.v; }
};
struct Other { long pad = 3; };
struct Base : Track {};
struct Derived : Other, Base {};
struct Poly { virtual ~Poly() = default; int v = 0;      // overloads &
    Poly* operator&() { return nullptr; } const Poly* operator&() const { return nullptr; }
    friend bool operator==(const Poly& a, const Poly& b) { return a.v == b.v; }
    friend bool operator!=(const Poly& a, const Poly& b) { return a.v != b.v; }
    friend bool operator<(const Poly& a, const Poly& b) { return a.v < b.v; }
    friend bool operator>(const Poly& a, const Poly& b) { return a.v > b.v; }
    friend bool operator<=(const Poly& a, const Poly& b) { return a.v <= b.v; }
    friend bool operator>=(const Poly& a, const Poly& b) { return a.v >= b.v; }
};

#if VARIANT == 0
using E = int; using R = E&; using CR = const E&;
#elif VARIANT == 1
using E = std::string; using R = E&; using CR = const E&;
#elif VARIANT == 2
using E = Track; using R = E&; using CR = const E&;
#elif VARIANT == 3
using E = Derived; using R = E&; using CR = const Base&;
#elif VARIANT == 4
using E = opt::option<double>; using R = E&; using CR = const E&;
#elif VARIANT == 5
using E = Poly; using R = E&; using CR = const E&;
#elif VARIANT == 6
using E = std::vector<int>; using R = E&; using CR = const E&;
#elif VARIANT == 7
using E = Derived; using R = E&; using CR = Base&;
#elif VARIANT == 10
using E = int; using R = const E&; using CR = const E&;
#elif VARIANT == 11
using E = Track; using R = const E&; using CR = const E&;
#elif VARIANT == 12
using E = Derived; using R = const E&; using CR = const Base&;
#elif VARIANT == 13
using E = std::string_view; using R = const E&; using CR = const E&;
#elif VARIANT == 20
using E = int; using R = E&&; using CR = const E&&;
#elif VARIANT == 21
using E = Track; using R = E&&; using CR = const E&&;
#elif VARIANT == 22
using E = Derived; using R = E&&; using CR = Base&&;
#elif VARIANT == 23
using E = std::string; using R = E&&; using CR = E&&;
#endif

static void set(int& x, int k) { x = k; }
static void set(bool& x, int k) { x = k == 2; }
static void set(double& x, int k) { x = k; }
static void set(std::string& x, int k) { x = k == 1 ? "a" : k == 2 ? "b much longer than the small buffer of a string" : "c"; }
static void set(std::string_view& x, int k) { x = k == 1 ? "a" : k == 2 ? "bb" : "c"; }
static void set(Track& x, int k) { x.v = k; }
static void set(Poly& x, int k) { x.v = k; }
static void set(opt::option<double>& x, int k) { x = double(k); }
static void set(std::vector<int>& x, int k) { x.assign(1, k); }
static int val(const int& x) { return x; }
[[maybe_unused]] static int val(const bool& x) { return x ? 2 : 1; }
[[maybe_unused]] static int val(const double& x) { return int(x); }
[[maybe_unused]] static int val(const std::string& x) { return x == "a" ? 1 : x == "c" ? 3 : x.size() > 20 ? 2 : -1; }
[[maybe_unused]] static int val(const std::string_view& x) { return x == "a" ? 1 : x == "bb" ? 2 : x == "c" ? 3 : -1; }
[[maybe_unused]] static int val(const Track& x) { return x.v; }
[[maybe_unused]] static int val(const Poly& x) { return x.v; }
[[maybe_unused]] static int val(const opt::option<double>& x) { return x == opt::none ? -1 : int(*x); }
[[maybe_unused]] static int val(const std::vector<int>& x) { return x.size() == 1 ? x[0] : -1; }

static E obj[NOBJ];        // two options
template<class X> int which(const X& x) {
    for (int i = 0; i < NOBJ; ++i) if (std::addressof(static_cast<const X&>(obj[i])) == std::addressof(x)) return i + 1;
    return -1;
}
template<class P> int which_ptr(P p) { return p ? which(*p) : 0; }
template<class OO> int idx(const OO& o) {
    const int p = which_ptr(o.ptr_or_null());
    if ((p != 0) != o.has_value()) fail("ptr_or_null disagrees with has_value");
    if ((p != 0) != bool(o)) fail("operator bool disagrees with has_value");
    if ((p == 0) != (o == opt::none)) fail("== none disagrees with has_value");
    if ((o.begin() != o.end()) != o.has_value()) fail("begin/end disagrees with has_value");
    if (p > 0) {
        if (which(o.get()) != p || which(*o) != p || which(o.value()) != p || which(o.get_unchecked()) != p || which(*o.begin()) != p || which(*o.operator->()) != p || which(o.value_or_throw()) != p) fail("accessors refer to different objects");
        if (o.end() - o.begin() != 1) fail("distance of a full option");
    }
    return p;
}
template<class E, class R, class CR>
int go(char** argv) {
    using O = opt::option<R>;
    using OC = opt::option<CR>;
    static_assert(sizeof(O) == sizeof(void*));
    static_assert(std::is_trivially_copyable_v<O> && std::is_trivially_destructible_v<O>);
    constexpr bool RV = std::is_rvalue_reference_v<R>;
    constexpr bool CONSTR = std::is_const_v<std::remove_reference_t<R>>;
    constexpr bool OPT = opt::is_option_v<E>;
    std::vector<O> ab;
    auto ref = [](int x) -> R { return static_cast<R>(obj[x - 1]); };
    auto script = read_script(argv[1]);
    for (auto& x : obj) set(x, 1);
    ab.resize(2);
    OC c;
    copies = 0;
    for (auto& l : script) {
        err().clear();
        std::vector<int> res; bool skip = false;
        const std::string& op = l.op;
        auto A = [&](int i) -> O& { return ab[std::size_t(i - 1)]; };
        const int i = l.a.size() > 0 ? int(l.a[0]) : 1, x = l.a.size() > 1 ? int(l.a[1]) : 1;
        const int j = 3 - i;
        const int k = x;
        auto is_k = [&](const auto& e) { return val(e) == k; };
        // the slot as the value category under which an rvalue reference option gives its object
        auto fwd = [&](int n) -> decltype(auto) { if constexpr (RV) return static_cast<O&&>(A(n)); else return static_cast<const O&>(A(n)); };
        copies = 0;
        const bool ctor = op.compare(0, 5, "ctor_") == 0 || op == "make_option";
        if (ctor) {
            O other = A(j);
            A(i).~O();
            void* p = std::addressof(A(i));
            std::memset(p, 0x5a, sizeof(O));
            if (op == "ctor_value") { if constexpr (OPT) ::new (p) O(std::in_place, ref(x)); else ::new (p) O(ref(x)); }
            else if (op == "ctor_in_place") ::new (p) O(std::in_place, ref(x));
            else if (op == "make_option") ::new (p) O(opt::make_option<R>(ref(x)));
            else if (op == "ctor_refw") { if constexpr (!RV) { if constexpr (CONSTR) ::new (p) O(std::cref(obj[x - 1])); else ::new (p) O(std::ref(obj[x - 1])); } }
            else if (op == "ctor_default") ::new (p) O();
            else if (op == "ctor_none") ::new (p) O(opt::none);
            else if (op == "ctor_copy") ::new (p) O(static_cast<const O&>(A(j)));
            else if (op == "ctor_move") ::new (p) O(static_cast<O&&>(A(j)));
            else { ::new (p) O(); skip = true; }
            if (idx(other) != idx(A(j))) fail("constructing changed the source");
        }
        else if (op == "assign_value") A(i) = ref(x);
        else if (op == "assign_refw") { if constexpr (!RV) { if constexpr (CONSTR) A(i) = std::cref(obj[x - 1]); else A(i) = std::ref(obj[x - 1]); } }
        else if (op == "emplace") { if (which(A(i).emplace(ref(x))) != x) fail("emplace returned another object"); }
        else if (op == "try_emplace") res = {which(A(i).try_emplace(ref(x)))};
        else if (op == "reset") A(i).reset();
        else if (op == "assign_none") A(i) = opt::none;
        else if (op == "assign_braces") A(i) = {};
        else if (op == "assign_copy") A(i) = A(j);
        else if (op == "assign_const") A(i) = static_cast<const O&>(A(j));
        else if (op == "assign_move") A(i) = static_cast<O&&>(A(j));
        else if (op == "self_copy") { O& s = A(i); A(i) = s; }
        else if (op == "self_move") { O& s = A(i); A(i) = static_cast<O&&>(s); }
        else if (op == "self_swap") { O& s = A(i); A(i).swap(s); }
        else if (op == "inspect") { int n = 0, w = 0; A(i).inspect([&](auto&& e) { ++n; w = which(e); }); if (n != (A(i).has_value() ? 1 : 0) || (n && w != idx(A(i)))) fail("inspect"); }
        else if (op == "swap") A(1).swap(A(2));
        else if (op == "opt_swap") { if constexpr (std::is_swappable_v<std::remove_reference_t<R>>) opt::swap(A(1), A(2)); else A(1).swap(A(2)); }
        else if (op == "adl_swap") { using std::swap; swap(A(1), A(2)); }
        else if (op == "take") { O t = A(i).take(); res = {idx(t)}; }
        else if (op == "take_if") { O t = A(i).take_if(is_k); res = {idx(t)}; }
        else if (op == "take_into_other") A(j) = A(i).take();
        else if (op == "or_assign") A(i) |= A(j);
        else if (op == "or_assign_value") { if constexpr (!RV) A(i) |= ref(x); }
        else if (op == "c_ctor_copy") { if constexpr (RV) { OC t(static_cast<O&&>(A(i))); c = t; } else { OC t(static_cast<const O&>(A(i))); c.~OC(); ::new (static_cast<void*>(&c)) OC(t); } }
        else if (op == "c_ctor_move") { OC t(static_cast<O&&>(A(i))); c = static_cast<OC&&>(t); }
        else if (op == "c_assign_copy") { if constexpr (RV) c = static_cast<O&&>(A(i)); else c = A(i); }
        else if (op == "c_assign_move") c = static_cast<O&&>(A(i));
        else if (op == "c_assign_const") { if constexpr (RV) c = static_cast<O&&>(A(i)); else c = static_cast<const O&>(A(i)); }
        else if (op == "c_assign_value") c = ref(i);
        else if (op == "c_ctor_value") { if constexpr (OPT) c = OC(std::in_place, ref(i)); else c = OC(ref(i)); }
        else if (op == "c_emplace") c.emplace(ref(i));
        else if (op == "c_reset") c.reset();
        else if (op == "c_take") { OC t = c.take(); if (idx(t) < 0 || c.has_value()) fail("c_take"); }
        else if (op == "c_assign_none") c = opt::none;
        else if (op == "write_obj") set(obj[i - 1], x);
        else if (op.compare(0, 2, "w_") == 0) {
            if constexpr (!CONSTR) {
                O& o = A(i); const O& co = A(i);
                if (op == "w_deref") set(*o, k);
                else if (op == "w_get") set(o.get(), k);
                else if (op == "w_value") set(o.value(), k);
                else if (op == "w_value_or_throw") set(o.value_or_throw(), k);
                else if (op == "w_arrow") set(*o.operator->(), k);
                else if (op == "w_ptr") set(*o.ptr_or_null(), k);
                else if (op == "w_begin") set(*o.begin(), k);
                else if (op == "w_range") { int n = 0; for (auto&& e : o) { set(e, k); ++n; } if (n != 1) fail("range-for runs"); }
                else if (op == "w_inspect") o.inspect([&](E& e) { set(e, k); });
                else if (op == "w_map") { auto m = o.map([&](E& e) { set(e, k); return 1; }); if (m != 1) fail("map result"); }
                else if (op == "w_const_deref") set(*co, k);
                else if (op == "w_const_get") set(co.get(), k);
                else if (op == "w_const_value") set(co.value(), k);
                else if (op == "w_const_begin") set(*co.begin(), k);
                else if (op == "w_const_ptr") set(*co.ptr_or_null(), k);
                else if (op == "w_unchecked") set(o.get_unchecked(), k);
                else if (op == "w_value_or") { if constexpr (!RV) { E none{}; set(co.value_or(none), k); } }
                else skip = true;
            }
        }
        else if (op == "cmp") { auto& p = A(1); auto& q = A(2); res = {p == q, p != q, p < q, p > q, p <= q, p >= q}; }
        else if (op == "cmp_c") { res = {A(1) == c, A(1) < c, c < A(1)}; if ((A(1) != c) == bool(res[0]) || (A(1) >= c) == bool(res[1]) || (A(1) <= c) == bool(res[2])) fail("negated comparisons"); }
        else if (op == "cmp_value") {
            const E& e = obj[x - 1];
            if constexpr (OPT) { auto& o = A(i); res = {o == opt::option<const E&>(std::in_place, e), o < opt::option<const E&>(std::in_place, e)}; }
            else { res = {A(i) == e, A(i) < e}; if ((A(i) != e) == bool(res[0]) || (A(i) >= e) == bool(res[1]) || (e == A(i)) != bool(res[0]) || (e > A(i)) != bool(res[1])) fail("comparison with a value"); }
        }
        else if (op == "value_or") { if constexpr (RV) { R r = static_cast<O&&>(A(i)).value_or(ref(x)); res = {which(r)}; } else { R r = A(i).value_or(ref(x)); res = {which(r)}; R r2 = O(A(i)).value_or(ref(x)); if (which(r2) != res[0]) fail("value_or of an rvalue"); } }
        else if (op == "or_value") { if constexpr (!RV) { if constexpr (OPT) { res = {which(A(i).value_or(ref(x)))}; } else { R r = A(i) | ref(x); res = {which(r)}; } } }
        else if (op == "or_else") { int n = 0; O r = fwd(i).or_else([&] { ++n; return O(std::in_place, ref(x)); }); if (n != (A(i).has_value() ? 0 : 1)) fail("or_else calls"); res = {idx(r)}; }
        else if (op == "map_value") { auto m = A(i).map([](const E& e) { return val(e); }); res = {m.value_or(0)}; }
        else if (op == "map_ref") { auto m = fwd(i).map([](R e) -> R { return static_cast<R>(e); }); static_assert(std::is_same_v<decltype(m), O>); res = {idx(m)}; }
        else if (op == "and_then") { O m = fwd(i).and_then([](R e) { return val(e) == 1 ? O(std::in_place, static_cast<R>(e)) : O(); }); res = {idx(m)}; }
        else if (op == "filter") { if constexpr (OPT) res = {A(i).has_value_and(is_k) ? idx(A(i)) : 0}; else { O m = fwd(i).filter(is_k); res = {idx(m)}; } }
        else if (op == "has_value_and") { res = {A(i).has_value_and(is_k)}; if (fwd(i).has_value_and(is_k) != bool(res[0])) fail("has_value_and of another category"); }
        else if (op == "value") { try { res = {which(A(i).value())}; } catch (const opt::bad_access&) { res = {0}; } try { if (which(std::move(A(i)).value_or_throw()) != res[0]) fail("value_or_throw"); } catch (const opt::bad_access&) { if (res[0]) fail("value_or_throw threw"); } }
        else if (op == "map_or") { res = {A(i).map_or(9, [](const E& e) { return val(e); }), A(i).map_or_else([] { return 8; }, [](const E& e) { return val(e); })}; }
        else if (op == "or_l") { O r = static_cast<const O&>(A(i)) | static_cast<const O&>(A(j)); res = {idx(r)}; }
        else if (op == "or_r") { O r = O(A(i)) | O(A(j)); res = {idx(r)}; if (idx(A(i) | O(A(j))) != res[0] || idx(O(A(i)) | A(j)) != res[0]) fail("| of mixed categories"); }
        else if (op == "and_l") { O r = A(i) & A(j); res = {idx(r)}; }
        else if (op == "and_r") { O r = O(A(i)) & O(A(j)); res = {idx(r)}; }
        else if (op == "xor_l") { O r = A(i) ^ A(j); res = {idx(r)}; }
        else if (op == "xor_r") { O r = O(A(i)) ^ O(A(j)); res = {idx(r)}; if (idx(A(i) ^ O(A(j))) != res[0] || idx(O(A(i)) ^ A(j)) != res[0]) fail("^ of mixed categories"); }
        else if (op == "zip") { auto z = opt::zip(fwd(1), fwd(2)); static_assert(std::is_same_v<decltype(z), opt::option<std::tuple<R, R>>>); if (z.has_value()) res = {which(std::get<0>(*z)), which(std::get<1>(*z))}; else res = {0, 0}; }
        else if (op == "count") { int n[3] = {0, 0, 0}; for (auto&& e : A(1)) { (void)e; ++n[0]; } const O& cb = A(2); for (auto&& e : cb) { (void)e; ++n[1]; } for (auto&& e : c) { (void)e; ++n[2]; } res = {n[0], n[1], n[2]}; }
        else skip = true;
        if (copies) fail("an object was copied, moved or assigned");
        if (skip) { std::puts("{\"skip\":1,\"t\":[]}"); continue; }
        std::string t = std::to_string(idx(A(1))) + "," + std::to_string(idx(A(2))) + "," + std::to_string(idx(c));
        for (int n = 0; n < nobj; ++n) t += "," + std::to_string(val(obj[n]));
        std::string r;
        for (int v : res) { if (!r.empty()) r += ","; r += std::to_string(v); }
        std::printf("{\"t\":[%s],\"res\":[%s],\"err\":%s}\n", t.c_str(), r.c_str(), js(err()).c_str());
    }
    return 0;
}
int main(int argc, char** argv) { if (argc > 2) nobj += std::atoi(argv[2]); return go<E, R, CR>(argv); }
