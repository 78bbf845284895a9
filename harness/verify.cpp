// Replays behaviours of spec/Verify.tla.  -DVMODE=0 access 1 iter 2 store, -DVT=element -DVD=depth (-DVS=payload), -DREAL: the macro as the library defines it (each step first in a child).   usage: verify SCRIPT 0
#include <csetjmp>
#include <cstdlib>
static std::jmp_buf jump; static int fired_checks = 0;
[[noreturn]] static void check_failed(bool text) { ++fired_checks; if (!text) std::abort(); std::longjmp(jump, 1); }
#ifdef REAL
#include <unistd.h>
#include <sys/wait.h>
#elif !defined(PLAIN)
#define OPTION_VERIFY(expression, message) ((expression) ? (void)0 : check_failed((message) != nullptr && *(message)))
#endif
#include "val.hpp"
using namespace H;
static std::string res; static bool ran = true;
static void add(long long x) { res += "," + std::to_string(x); }
template<class T, int N> struct Up { using type = opt::option<typename Up<T, N - 1>::type>; };
template<class T> struct Up<T, 0> { using type = T; };
template<class T, int N> using Opt = typename Up<T, N>::type;
template<class O> struct Place {      // an object made anew after a check cut an operation short
    alignas(O) unsigned char buf[sizeof(O)]; O* p;
    Place() : p(new (static_cast<void*>(buf)) O()) {}
    void anew() { std::memset(buf, 0xA5, sizeof(buf)); p = new (static_cast<void*>(buf)) O(); }
    O& operator*() { return *p; }
};
#if VMODE == 0
using T = VT; using R = std::remove_cv_t<std::remove_reference_t<T>>; using O = Opt<T, VD>;
static Place<O> place;
template<class Q> static decltype(auto) make(int v) { static std::unique_ptr<R> h[5]; h[v].reset(new R(V<R>::make(v))); return static_cast<Q>(*h[v]); }
template<class P> static void fill(P& o, int c) {
    using E = typename P::value_type;
    if (c == 0) { o.reset(); return; }
    if constexpr (opt::is_option_v<E> && !std::is_same_v<P, opt::option<T>>) { o.emplace(); fill(o.get(), c - 1); }
    else if constexpr (std::is_reference_v<E>) o.emplace(make<E>(c));
    else PL<R>::args(c, [&](auto&&... x) { o.emplace(std::forward<decltype(x)>(x)...); });
}
// content of what k gets led to
template<int K, class X> static int content(const X& x) {
    if constexpr (K == VD) return V<R>::code(const_cast<R&>(x));
    else { if (!x.has_value()) return 0; const int c = content<K + 1>(x.get_unchecked()); return K + 1 == VD ? c : c + 1; }
}
// content counted like the specification: options still around a value count as well
template<int K, class X> static int inside(const X& x) { return content<K>(x); }
template<int Op, class X> static decltype(auto) once(X&& x) {
    if constexpr (Op == 0) return std::forward<X>(x).get();
    else if constexpr (Op == 1) return *std::forward<X>(x);
    else if constexpr (Op == 2) return *(x.operator->());
    else if constexpr (Op == 3) return *x.begin();
    else if constexpr (Op == 4) return x.begin()[0];
    else if constexpr (Op == 5) return *(x.begin().operator->());
    else if constexpr (Op == 6) return std::forward<X>(x).value();
    else if constexpr (Op == 7) return std::forward<X>(x).value_or_throw();
    else return std::forward<X>(x).get_unchecked();
}
template<int Op, int K, int N, class X> static void steps(X&& x, int k) {
    if constexpr (N < VD) {
        decltype(auto) y = once<Op>(std::forward<X>(x));
        static_assert(std::is_reference_v<decltype(y)>);
        if (k == N + 1) add(inside<N + 1>(y)); else steps<Op, K, N + 1>(static_cast<decltype(y)>(y), k);
    }
}
template<int Op> static void access(char cat, bool c, int k) {
#ifdef __cpp_exceptions
    try {
#endif
    if (c) { if (cat == 'l') steps<Op, 0, 0>(std::as_const(*place), k); else steps<Op, 0, 0>(static_cast<const O&&>(*place), k); }
    else { if (cat == 'l') steps<Op, 0, 0>(*place, k); else steps<Op, 0, 0>(static_cast<O&&>(*place), k); }
#ifdef __cpp_exceptions
    } catch (const opt::bad_access& e) { if (std::string(e.what()).empty()) fail("no message"); add(-1); }
#endif
}
static void step(const Line& L) {
    std::string op = L.op;
    if (op == "set") { fill(*place, int(L.a[0])); return; }
    const std::size_t u = op.rfind('_');
    if (!L.a.empty() && u != std::string::npos) {
        std::string cat = op.substr(u + 1), f = op.substr(0, u); const int k = int(L.a[0]); const bool c = cat[0] == 'c'; const char q = c ? cat[1] : cat[0];
        if (f == "get") access<0>(q, c, k); else if (f == "star") access<1>(q, c, k); else if (f == "arrow") access<2>(q, c, k); else if (f == "begin") access<3>(q, c, k); else if (f == "index") access<4>(q, c, k);
        else if (f == "barrow") access<5>(q, c, k); else if (f == "value") access<6>(q, c, k); else if (f == "throw") access<7>(q, c, k); else if (f == "unchecked") access<8>(q, c, k); else ran = false;
        return;
    }
    O& o = *place; const bool has = content<0>(o) != 0; int n = 0;
    if (op == "has_value") n = o.has_value();
    else if (op == "bool") n = o ? 1 : 0;
    else if (op == "range") { for (auto& x : o) { (void)x; ++n; } if (o.begin() == o.end() && n) fail("not empty"); }
    else if (op == "rangec") { for (auto& x : std::as_const(o)) { (void)x; ++n; } }
    else if (op == "ptr_or_null") n = o.ptr_or_null() != nullptr;
    else if (op == "map") { auto r = o.map([](auto&&) { return 5; }); n = r == 5; }
    else if (op == "and_then") { auto r = o.and_then([](auto&&) { return opt::option<int>{6}; }); n = r == 6; }
    else if (op == "inspect") o.inspect([&](auto&&...) { ++n; });
    else if (op == "none") n = o != opt::none;
    else ran = false;
    if (n != int(has)) fail("another answer");
    add(content<0>(o));
}
static std::string state() { return std::to_string(content<0>(*place)); }
static void anew() { place.anew(); fill(*place, 0); }
#elif VMODE == 1
using T = VT; using R = std::remove_cv_t<std::remove_reference_t<T>>; using O = opt::option<T>;
static O o; static typename O::iterator it[3]; static typename O::const_iterator ct[3];
static constexpr bool konst = VD;
template<class T> static void engage() { if constexpr (std::is_reference_v<T>) { static std::unique_ptr<R> h(new R(V<R>::make(1))); o.emplace(static_cast<T>(*h)); } else PL<R>::args(1, [&](auto&&... x) { o.emplace(std::forward<decltype(x)>(x)...); }); }
template<class I> static int pos(const I& x, I b, I e) { if (x == I{}) return -1; return x == b ? 0 : x == e ? 1 : 7; }
template<class I, class P> static void run_step(I* t, P& q, const Line& L) {
    const auto& op = L.op; const int i = L.a.empty() ? 0 : int(L.a[0]); const int n = L.a.size() > 1 ? int(L.a[1]) : 0; I& x = t[i];
    if (op == "engage") { engage<T>(); t[1] = t[2] = I{}; }
    else if (op == "empty") { o.reset(); t[1] = t[2] = I{}; }
    else if (op == "begin") x = q.begin(); else if (op == "end") x = q.end(); else if (op == "nowhere") x = I{};
    else if (op == "deref") { auto& y = *x; if (std::addressof(y) != std::addressof(o.get_unchecked())) fail("something else"); }
    else if (op == "arrow") { auto* y = x.operator->(); if (y != std::addressof(o.get_unchecked())) fail("something else"); }
    else if (op == "index") { auto& y = x[n]; if (std::addressof(y) != std::addressof(o.get_unchecked())) fail("something else"); }
    else if (op == "preinc") ++x; else if (op == "postinc") x++; else if (op == "predec") --x; else if (op == "postdec") x--;
    else if (op == "pluseq") x += n; else if (op == "plus") { auto y = x + n; x = y; } else if (op == "addto") { auto y = n + x; x = y; }
    else if (op == "minuseq") x -= n; else if (op == "minus") { auto y = x - n; x = y; }
    else if (op == "lt") add(x < t[n]); else if (op == "gt") add(x > t[n]); else if (op == "le") add(x <= t[n]); else if (op == "ge") add(x >= t[n]);
    else if (op == "diff") add(x - t[n]); else if (op == "eq") add(x == t[n]); else if (op == "ne") add(x != t[n]);
    else ran = false;
}
static void step(const Line& L) { if constexpr (konst) run_step(ct, std::as_const(o), L); else run_step(it, o, L); }
static std::string state() {
    auto f = [&](auto* t, auto& q) { return "[" + std::to_string(int(o.has_value())) + "," + std::to_string(pos(t[1], q.begin(), q.end())) + "," + std::to_string(pos(t[2], q.begin(), q.end())) + "]"; };
    if constexpr (konst) return f(ct, std::as_const(o)); else return f(it, o);
}
static void anew() { it[1] = it[2] = {}; ct[1] = ct[2] = {}; }
#else
// payloads
struct Triv { int v; Triv(int x) noexcept : v(x) {} };
struct Loud { int v; Loud(int x) : v(x) {} Loud(const Loud& x) : v(x.v) {} Loud& operator=(const Loud& x) { v = x.v; return *this; } ~Loud() { v = 55; } };
struct TrivD : Loud { using Loud::Loud; };   // assigned from int as well
struct OneLevel { short v; OneLevel(int x) : v(short(x)) {} OneLevel& operator=(int x) { v = short(x); return *this; } };
struct Agg { int v; char c; };
enum class En : int {};
#define LEVELS(X, K) template<> struct opt::option_traits<X> { static constexpr std::uintmax_t max_level = K; \
    static constexpr std::uintmax_t get_level(const X* p) noexcept { return p->v <= -1 && p->v >= -K ? std::uintmax_t(-1 - p->v) : std::uintmax_t(-1); } \
    static constexpr void set_level(X* p, std::uintmax_t l) noexcept { p->v = -1 - int(l); } };
LEVELS(Triv, 3) LEVELS(Loud, 3) LEVELS(TrivD, 2) LEVELS(OneLevel, 1) LEVELS(Agg, 2)
template<class X> struct S {   // a user class that holds an int
    using from = int;
    static int under(int c) { return c > 10 ? 10 - c : c; } static X make(int c) { return X{under(c)}; } static int code(const X& x) { const int v = x.v; return v < 0 ? 10 - v : v; }
};
template<> struct S<Agg> : S<Triv> { using from = Agg; static Agg make(int c) { return Agg{under(c), 'a'}; } static Agg under_value(int c) { return make(c); } static int code(const Agg& x) { return x.v < 0 ? 10 - x.v : x.v; } };
template<auto... Vs> struct S<opt::sentinel<int, Vs...>> { using from = int; static int under(int c) { return c > 10 ? 10 - c : c; } static opt::sentinel<int, Vs...> make(int c) { return under(c); } static int code(int v) { return v < 0 ? 10 - v : v; } };
// a type whose levels are bit patterns of its own: they are obtained from the traits, as any object with the same bytes would be
template<class X> struct Bits {
    using from = X;
    static X under(int c) { return make(c); }
    static X plain(int c) { if constexpr (std::is_pointer_v<X>) return const_cast<X>(&objs[c]); else return X(c); }
    static X make(int c) { X x = plain(c > 10 ? 1 : c); if (c > 10) opt::option_traits<X>::set_level(&x, std::uintmax_t(c - 11)); return x; }
    static int code(const X& x) { for (int c : {1, 2, 3, 11, 12, 13}) { X y = make(c); if (std::memcmp(&x, &y, sizeof(X)) == 0) return c; } return -1; }
};
template<> struct S<double> : Bits<double> {}; template<> struct S<float> : Bits<float> {}; template<> struct S<int*> : Bits<int*> {};
using T = VS; using O = Opt<T, VD>; using F = typename S<T>::from;
struct Maker { int c; operator T() const { return S<T>::make(c); } };
static Place<O> place;
template<class X, int N> static int code(const X& x) { if constexpr (N == 0) return S<T>::code(x); else { if (!x.has_value()) return N <= VK ? 10 + N : 20 + N; return code<typename X::value_type, N - 1>(x.get_unchecked()); } }
// the option at depth d
template<int N, class X, class G> static void at(X& x, int d, G&& g) { if (d == N) g(x); else if constexpr (N > 0) at<N - 1>(x.get_unchecked(), d, g); }
static void step(const Line& L) {
    const auto& op = L.op;
    auto A = [&](std::size_t n) { return int(L.a.at(n)); };
    O& o = *place;
    auto replace = [&](O&& x) { place.anew(); new (static_cast<void*>(place.buf)) O(std::move(x)); };
    if (L.a.size() == 1 && op != "reset" && op != "none" && op != "write") {
        T v = S<T>::make(A(0));
        if (op == "ctor") { O x(v); replace(std::move(x)); }
        else if (op == "list") { O x{v}; replace(std::move(x)); }
        else if (op == "init") { O x = v; replace(std::move(x)); }
        else if (op == "in_place") { O x(std::in_place, v); replace(std::move(x)); }
        else if (op == "make") replace(opt::make_option<typename O::value_type>(v));
        else if (op == "conv") { if constexpr (std::is_same_v<F, T>) { O x(v); replace(std::move(x)); } else { const opt::option<F> y{S<T>::under(A(0))}; O x(y); replace(std::move(x)); } }
        else if (op == "convmove") { if constexpr (std::is_same_v<F, T>) { O x(std::move(v)); replace(std::move(x)); } else { opt::option<F> y{S<T>::under(A(0))}; O x(std::move(y)); replace(std::move(x)); } }
        else if (op == "conv_assign") { if constexpr (std::is_same_v<F, T>) o = v; else { const opt::option<F> y{S<T>::under(A(0))}; o = y; } }
        else if (op == "conv_assign_move") { if constexpr (std::is_same_v<F, T>) o = std::move(v); else { opt::option<F> y{S<T>::under(A(0))}; o = std::move(y); } }
        else if (op == "zip_with") { if constexpr (VD == 1) replace(opt::zip_with([&](int, long) { return v; }, opt::option<int>{1}, opt::option<long>{2})); }
        else if (op == "cast") { if constexpr (VD == 1) { const opt::option<Maker> y{Maker{A(0)}}; replace(opt::option_cast<T>(y)); } }
        else if (op == "castmove") { if constexpr (VD == 1) replace(opt::option_cast<T>(opt::option<Maker>{Maker{A(0)}})); }
        else if (op == "and_then") { if constexpr (VD == 1) replace(opt::option<int>{1}.and_then([&](int) { return O(v); })); }
        else if (op == "or_else") { if constexpr (VD == 1) replace(O{}.or_else([&] { return O(v); })); }
        else if (op == "other") { if constexpr (VD == 1) replace(O{} | O(v)); }
        else if (op == "as_option") [&](auto& w) { if constexpr (VD == 1 && std::is_trivially_copyable_v<std::decay_t<decltype(w)>>) replace(opt::as_option(w)); else ran = false; }(v);
        else if (op == "from_map") { if constexpr (VD == 1) replace(opt::option<int>{1}.map([&](int) { return v; })); }
        else if (op == "from_transform") { if constexpr (VD == 1) replace(opt::option<long>{1}.map([&](long&&) -> T { return S<T>::make(A(0)); })); }
        else ran = false;
        return;
    }
    if (op == "emplace" || op == "assign" || op == "try_emplace" || op == "emplace_r" || op == "assign_r") at<VD>(o, A(0), [&](auto& x) {
        if constexpr (opt::is_option_v<std::decay_t<decltype(x)>>) {
            T v = S<T>::make(A(1));
            if (op == "emplace") x.emplace(v); else if (op == "assign") x = v; else if (op == "emplace_r") x.emplace(std::move(v)); else if (op == "assign_r") x = std::move(v); else x.try_emplace(v);
        } else ran = false;
    });
    else if (op == "reset" || op == "none") at<VD>(o, A(0), [&](auto& x) { if constexpr (opt::is_option_v<std::decay_t<decltype(x)>>) { if (op == "reset") x.reset(); else x = opt::none; } else ran = false; });
    else if (op == "write") at<VD>(o, 0, [&](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, T>) x = S<T>::make(A(0)); else ran = false; });
    else if (op == "copy") { O x(o); O y; y = x; o = y; }
    else if (op == "move") { O x(std::move(o)); O y; y = std::move(x); o = std::move(y); }
    else if (op == "swap") { O x; x.swap(o); o.swap(x); }
    else if (op == "take_back") { O x = o.take(); o = x; }
    else ran = false;
}
static std::string state() { return std::to_string(code<O, VD>(*place)); }
static void anew() { place.anew(); }
#endif
#ifdef REAL
// in a child first: does it survive, and what does it say
static bool survives(const Line& L) {
    int fd[2]; if (pipe(fd)) std::abort();
    std::fflush(stdout);
    const pid_t p = fork();
    if (p == 0) { dup2(fd[1], 2); ::close(fd[0]); step(L); _exit(42); }
    ::close(fd[1]); std::string said; char b[512]; for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) said.append(b, std::size_t(n));
    ::close(fd[0]); int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { if (!said.empty()) fail("it said " + said.substr(0, 80)); return true; }
    if (!WIFSIGNALED(st)) fail("ended in another way");
    if (said.find("option.hpp:") == std::string::npos || said.find("assertion '") == std::string::npos || said.find("failed: ") == std::string::npos) fail("no message: " + said.substr(0, 80));
    return false;
}
#endif
int main(int, char** argv) {
    for (auto& L : read_script(argv[1])) {
        res.clear(); ran = true;
        const char* f = "0"; static std::string err_kept;
#ifdef REAL
        if (survives(L)) step(L); else { f = "1"; res.clear(); anew(); }
#else
        fired_checks = 0;
        if (setjmp(jump) == 0) { step(L); if (fired_checks) fail("a check fired and was passed"); }
        else { f = "1"; res.clear(); anew(); }
#endif
        std::printf("{\"t\":%s,\"res\":[%s%s]%s", state().c_str(), f, res.c_str(), ran ? "" : ",\"skip\":1");
        if (!err().empty()) std::printf(",\"err\":%s", js(err()).c_str());
        std::puts("}"); err().clear(); std::fflush(stdout);
    }
    std::_Exit(0);
}
