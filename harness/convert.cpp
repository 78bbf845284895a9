// Replays behaviours of spec/Convert.tla.  -DCV=pair number, or -DNEST=depth -DCX=type -DCY=type.   usage: convert SCRIPT 0
#include "payload.hpp"
#include <any>
using namespace H;
constexpr int NV = 3;
static std::string res; static bool ran = true;
static void add(long long x) { res += (res.empty() ? "" : ",") + std::to_string(x); }
// how values are made and read, so that code(T(make(U))) is the same number
template<class X, class = void> struct K;
template<class X> struct K<X, std::enable_if_t<std::is_arithmetic_v<X>>> { static X make(int v) { return X(v - 1); } static int code(const X& x) { return int(x) + 1; } };
static std::string text(int v) { return "a text that is too long to be kept in place " + std::to_string(v); }
static int number(const std::string& s) { for (int v = 1; v < 9; ++v) if (s == text(v)) return v; return s.empty() ? NV + 1 : -1; }
template<> struct K<std::string> { static std::string make(int v) { return text(v); } static int code(const std::string& x) { return number(x); } };
static const std::string texts[] = {text(0), text(1), text(2), text(3), text(4)};
template<> struct K<const char*> { static const char* make(int v) { return texts[v].c_str(); } static int code(const char* x) { return number(x); } };
template<> struct K<std::string_view> { static std::string_view make(int v) { return texts[v]; } static int code(const std::string_view& x) { return number(std::string(x)); } };
struct Base { int n = 0; virtual ~Base() = default; };
struct Other { int pad = 5; virtual void f() {} virtual ~Other() = default; };
struct Derived : Other, Base { explicit Derived(int k = 0) { n = k; } };
static Derived things[] = {Derived(0), Derived(1), Derived(2), Derived(3), Derived(4)};
template<> struct K<Derived*> { static Derived* make(int v) { return v == 1 ? nullptr : &things[v]; } static int code(Derived* x) { return x ? x->n : 1; } };
template<> struct K<const Base*> { static int code(const Base* x) { return x ? x->n : 1; } };
template<> struct K<Base*> { static int code(Base* x) { return x ? x->n : 1; } };
template<> struct K<std::unique_ptr<Derived>> { static std::unique_ptr<Derived> make(int v) { return std::make_unique<Derived>(v); } static int code(const std::unique_ptr<Derived>& x) { return x ? x->n : NV + 1; } };
template<> struct K<std::unique_ptr<Base>> { static int code(const std::unique_ptr<Base>& x) { return x ? x->n : NV + 1; } };
template<> struct K<std::shared_ptr<Base>> { static int code(const std::shared_ptr<Base>& x) { return x ? x->n : NV + 1; } };
template<> struct K<std::shared_ptr<Derived>> { static std::shared_ptr<Derived> make(int v) { return std::make_shared<Derived>(v); } static int code(const std::shared_ptr<Derived>& x) { return x ? x->n : NV + 1; } };
template<> struct K<std::variant<int, std::string>> { static int code(const std::variant<int, std::string>& x) { return x.index() == 1 ? number(std::get<1>(x)) : -2; } };
template<> struct K<std::optional<std::string>> { static int code(const std::optional<std::string>& x) { return x ? number(*x) : -2; } };
struct Call { int n; int operator()() const { return n; } };
template<> struct K<Call> { static Call make(int v) { return {v}; } static int code(const Call& x) { return x.n; } };
template<> struct K<std::function<int()>> { static int code(const std::function<int()>& x) { return x ? x() : -2; } };
using SS = std::pair<short, short>; using II = std::pair<int, long>; using TT = std::tuple<long, int>;
template<> struct K<SS> { static SS make(int v) { return SS(short(v), short(7)); } static int code(const SS& x) { return x.second == 7 ? x.first : -1; } };
template<> struct K<II> { static int code(const II& x) { return x.second == 7 ? x.first : -1; } };
template<> struct K<TT> { static int code(const TT& x) { return std::get<1>(x) == 7 ? int(std::get<0>(x)) : -1; } };
template<> struct K<std::vector<int>> { static int code(const std::vector<int>& x) { return int(x.size()); } };
struct Size { int n; operator std::size_t() const { return std::size_t(n); } };
template<> struct K<Size> { static Size make(int v) { return {v}; } static int code(const Size& x) { return x.n; } };
enum class En : unsigned char {}; 
template<> struct K<En> { static En make(int v) { return En(v - 1); } static int code(En x) { return int(x) + 1; } };
template<> struct K<void*> { static int code(void* x) { return x ? int(static_cast<const int*>(x) - objs) : 1; } };
template<> struct K<int*> { static int* make(int v) { return v == 1 ? nullptr : &objs[v]; } static int code(const int* x) { return x ? int(x - objs) : 1; } };
// tracked: how it came about
struct Src { int v; explicit Src(int k) : v(k) {} Src(const Src&) = default; Src& operator=(const Src&) = default; Src(Src&& o) noexcept : v(o.v) { o.v = NV + 1; } Src& operator=(Src&& o) noexcept { v = o.v; o.v = NV + 1; return *this; } };
template<class S> constexpr int by = std::is_rvalue_reference_v<S&&> ? 2 : 1;
#ifndef EXPL
#define EXPL
#endif
struct Con {
    int v = -3; mutable int how = 9; int c = 0, e = 0;
    Con() = default;
#ifdef CDTOR
    Con(const Con&) = default; Con& operator=(const Con&) = default; Con(Con&&) = default; Con& operator=(Con&&) = default;
    ~Con() { v = -5; }
#endif
    EXPL Con(const Src& s) : v(s.v), how(1) {}
    EXPL Con(Src&& s) : v(s.v), how(2) { s.v = NV + 1; }
    template<class A, class B> Con(A&& a, B&& b) : v(a.v), how(10 + b.v), c(by<A>), e(by<B>) { take(std::forward<A>(a)); take(std::forward<B>(b)); }
    template<class A, class B> Con(std::initializer_list<int> l, A&& a, B&& b) : v(b.v), how(20 + a.v), c(by<A>), e(by<B>) { if (l.size() != 3 || l.begin()[1] != 22) fail("another list"); take(std::forward<A>(a)); take(std::forward<B>(b)); }
    Con(std::initializer_list<Src>) : how(90) {} // only for those who ask with braces
    Con& operator=(const Src& s) { v = s.v; how = 3; return *this; }
    Con& operator=(Src&& s) { v = s.v; s.v = NV + 1; how = 4; return *this; }
    static void take(const Src&) {} static void take(Src&& s) { s.v = NV + 1; }
};
#ifdef CLEVELS
template<> struct opt::option_traits<Con> {
    static constexpr std::uintmax_t max_level = 2;
    static std::uintmax_t get_level(const Con* x) noexcept { return x->v == -10 || x->v == -11 ? std::uintmax_t(-10 - x->v) : std::uintmax_t(-1); }
    static void set_level(Con* x, std::uintmax_t l) noexcept { if (l) x->v = -11; else new (static_cast<void*>(&x->v)) int(-10); }
};
#endif
template<> struct K<Src> { static Src make(int v) { return Src(v); } static int code(const Src& x) { return x.v; } };
template<> struct K<Con> { static int code(const Con& x) { return x.v; } };
template<> struct K<std::any> { static int code(const std::any& x) { if (auto* s = std::any_cast<std::string>(&x)) return number(*s); if (auto* o = std::any_cast<opt::option<std::string>>(&x)) return NV + 2 + (*o ? number(**o) : 0); return -2; } };
#ifndef NEST
#define PAIR(n, T, U) struct P##n { using t = T; using u = U; };
template<int> struct Pair;
#define P(n, ...) template<> struct Pair<n> { template<class A, class B> struct S { using t = A; using u = B; }; using type = S<__VA_ARGS__>; };
P(0, Con, Src) P(1, long, int) P(2, double, float) P(3, std::string, const char*) P(4, std::string, std::string_view) P(5, Base*, Derived*) P(6, std::unique_ptr<Base>, std::unique_ptr<Derived>)
P(7, bool, int) P(8, int, bool) P(9, std::variant<int, std::string>, std::string) P(10, std::optional<std::string>, std::string) P(11, std::shared_ptr<Base>, std::unique_ptr<Derived>) P(12, std::any, std::string)
P(13, std::function<int()>, Call) P(14, II, SS) P(15, TT, SS) P(16, std::vector<int>, Size) P(17, int, En) P(18, void*, int*) P(19, const std::string, const char*) P(20, const Con, Src) P(21, float, double) P(22, std::shared_ptr<Base>, std::shared_ptr<Derived>)
P(23, const bool, int) P(24, const int, bool) P(25, const double, int) P(26, const Base* const, Derived*)
using T = Pair<CV>::type::t; using U = Pair<CV>::type::u; using O = opt::option<T>; using OU = opt::option<U>; using R = std::remove_const_t<T>;
static constexpr bool can_copy = std::is_copy_constructible_v<U>, implicit = std::is_convertible_v<U, T>;
static std::unique_ptr<O> t; static OU s;
static O& take(O&& o) { t = std::make_unique<O>(std::move(o)); return *t; }
static void arg(O o) { take(std::move(o)); }
template<class X> static O ret(X&& x) { return std::forward<X>(x); }
static O ret_none() { return opt::none; } static O ret_braces() { return {}; }
// t as category c
template<class X, class F> static void as(X& x, int c, F&& f) {
    if constexpr (can_copy) { if (c == 0) f(x); else if (c == 1) f(std::as_const(x)); else if (c == 3) f(static_cast<const X&&>(x)); }
    if (c == 2) f(static_cast<X&&>(x));
}
template<class Q> static int& how_of(Q& q) { if constexpr (std::is_same_v<std::remove_const_t<Q>, Con>) return q.how; else { static int none; return none = 0; } }
template<class Q> static void add_args(Q& q) { if constexpr (std::is_same_v<std::remove_const_t<Q>, Con>) { add(q.c); add(q.e); } }
template<class Q> static void braces(Q& q) { if constexpr (!std::is_const_v<T>) q = {}; else ran = false; }
template<class Q> static void empty_option(Q& q) { if constexpr (!std::is_const_v<T>) q = O{}; else ran = false; }
static int how() { return *t ? how_of(**t) : 0; }
static void none_ops(const std::string& op) {
    if (op == "ctor_none") { O x(opt::none); take(std::move(x)); }
    else if (op == "list_none") { O x{opt::none}; take(std::move(x)); }
    else if (op == "init_none") { O x = opt::none; take(std::move(x)); }
    else if (op == "ctor_default") { O x; take(std::move(x)); }
    else if (op == "list_default") { O x{}; take(std::move(x)); }
    else if (op == "ret_none") take(ret_none());
    else if (op == "ret_braces") take(ret_braces());
    else if (op == "assign_none") *t = opt::none;
    else if (op == "reset") t->reset();
    else if (op == "assign_empty_option") empty_option(*t);
    else ran = false;
}
template<class X> static void opt_ops(const std::string& op, X&& x) {
    if (op == "ctor_opt") { O y(std::forward<X>(x)); take(std::move(y)); }
    else if (op == "list_opt") { O y{std::forward<X>(x)}; take(std::move(y)); }
    else if (op == "make_opt") { if constexpr (!std::is_same_v<R, std::any>) take(static_cast<O>(std::forward<X>(x))); else ran = false; }
    else if (op == "assign_opt") { if constexpr (!std::is_const_v<T> && std::is_assignable_v<T&, U>) { if (&(*t = std::forward<X>(x)) != t.get()) fail("returned something else"); } else ran = false; }
    else if (op == "deduce_opt") { opt::option y{std::forward<X>(x)}; static_assert(std::is_same_v<decltype(y), OU>); add(y ? K<U>::code(*y) : 0); return; }
    else if constexpr (implicit) {
        if (op == "init_opt") { O y = std::forward<X>(x); take(std::move(y)); }
        else if (op == "arg_opt") arg(std::forward<X>(x));
        else ran = false;
    } else ran = false;
    add(how());
}
template<class X> static void val_ops(const std::string& op, X&& x) {
    if (op == "ctor_val") { O y(std::forward<X>(x)); take(std::move(y)); }
    else if (op == "list_val") { O y{std::forward<X>(x)}; take(std::move(y)); }
    else if (op == "in_place_val") { O y(std::in_place, std::forward<X>(x)); take(std::move(y)); }
    else if (op == "in_place_list_val") { O y{std::in_place, std::forward<X>(x)}; take(std::move(y)); }
    else if (op == "make_t_val") take(opt::make_option<T>(std::forward<X>(x)));
    else if (op == "emplace_val") { auto& r = t->emplace(std::forward<X>(x)); if (std::addressof(r) != std::addressof(**t)) fail("returned something else"); }
    else if (op == "assign_val") { if constexpr (!std::is_const_v<T> && std::is_assignable_v<T&, U>) { if (&(*t = std::forward<X>(x)) != t.get()) fail("returned something else"); } else ran = false; }
    else if (op == "try_emplace_val") { auto& r = t->try_emplace(std::forward<X>(x)); if (std::addressof(r) != std::addressof(**t)) fail("returned something else"); }
    else if (op == "voc_val") { if constexpr (std::is_copy_constructible_v<T>) { R r = std::as_const(*t).value_or_construct(std::forward<X>(x)); add(K<R>::code(r)); add(how_of(r)); return; } else ran = false; }
    else if (op == "make_u") { auto y = opt::make_option(std::forward<X>(x)); static_assert(std::is_same_v<decltype(y), OU>); add(y ? K<U>::code(*y) : 0); return; }
    else if (op == "deduce") { opt::option y{std::forward<X>(x)}; static_assert(std::is_same_v<decltype(y), OU>); opt::option z = y ? 1 : 0; static_assert(std::is_same_v<decltype(z), opt::option<int>>); add(y ? K<U>::code(*y) : 0); return; }
    else if constexpr (implicit) {
        if (op == "init_val") { O y = std::forward<X>(x); take(std::move(y)); }
        else if (op == "arg_val") arg(std::forward<X>(x));
        else if (op == "ret_val") take(ret(std::forward<X>(x)));
        else ran = false;
    } else ran = false;
    add(how());
}
template<class A, class B> static void two_ops(const std::string& op, A&& a, B&& b) {
    if constexpr (std::is_same_v<R, Con>) {
        if (op == "ctor2") { O x(std::forward<A>(a), std::forward<B>(b)); take(std::move(x)); }
        else if (op == "list2") { O x{std::forward<A>(a), std::forward<B>(b)}; take(std::move(x)); }
        else if (op == "in_place2") { O x(std::in_place, std::forward<A>(a), std::forward<B>(b)); take(std::move(x)); }
        else if (op == "make2") take(opt::make_option<T>(std::forward<A>(a), std::forward<B>(b)));
        else if (op == "emplace2") { auto& r = t->emplace(std::forward<A>(a), std::forward<B>(b)); if (&r != &**t) fail("returned something else"); }
        else if (op == "in_place_il") { O x(std::in_place, {11, 22, 33}, std::forward<A>(a), std::forward<B>(b)); take(std::move(x)); }
        else if (op == "make_il") take(opt::make_option<T>({11, 22, 33}, std::forward<A>(a), std::forward<B>(b)));
        else if (op == "emplace_il") { const std::initializer_list<int> l = {11, 22, 33}; auto& r = t->emplace(l, std::forward<A>(a), std::forward<B>(b)); if (&r != &**t) fail("returned something else"); }
        else ran = false;
        add(how());
    } else ran = false;
}
static void step(const Line& L) {
    const auto& op = L.op;
    auto A = [&](std::size_t n) { return int(L.a.at(n)); };
    if (*t) how_of(**t) = 0;
    if (op == "source") { if (A(0) == 0) s.reset(); else s.emplace(K<U>::make(A(0))); }
    else if (op == "assign_braces") { if (!std::is_scalar_v<T>) braces(*t); else ran = false; }
    else if (op == "assign_zero") { if (std::is_scalar_v<T>) braces(*t); else ran = false; }
    else if (L.a.empty()) none_ops(op);
    else if (L.a.size() == 1) as(s, A(0), [&](auto&& x) { opt_ops(op, std::forward<decltype(x)>(x)); });
    else if (L.a.size() == 2) { U u = K<U>::make(A(0)); as(u, A(1), [&](auto&& x) { val_ops(op, std::forward<decltype(x)>(x)); }); add(K<U>::code(u)); }
    else { U u = K<U>::make(A(0)), w = K<U>::make(A(2)); as(u, A(1), [&](auto&& x) { as(w, A(3), [&](auto&& y) { two_ops(op, std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); }); add(K<U>::code(u)); add(K<U>::code(w)); if (*t) add_args(**t); }
}
static std::string state() { return "[" + std::to_string(*t ? K<R>::code(**t) : 0) + "," + std::to_string(s ? K<U>::code(*s) : 0) + "]"; }
static void begin() { t = std::make_unique<O>(); }
#else
using X = CX; using Y = CY;
template<class A, int N> struct Up { using type = opt::option<typename Up<A, N - 1>::type>; };
template<class A> struct Up<A, 0> { using type = A; };
template<class A, int N> using Opt = typename Up<A, N>::type;
using O = Opt<X, NEST>;
template<class A, int J> static Opt<A, J> build(int c) {
    if constexpr (J == 0) return K<A>::make(c);
    else { Opt<A, J> o; if (c == 0) return o; if constexpr (J == 1) o.emplace(K<A>::make(c)); else o.emplace(build<A, J - 1>(c - 1)); return o; }
}
template<class A, int J> static int read(const Opt<A, J>& o) {
    if constexpr (J == 0) return K<A>::code(o);
    else { if (!o.has_value()) return 0; if constexpr (J == 1) return read<A, 0>(o.get()); else return 1 + read<A, J - 1>(o.get()); }
}
static std::unique_ptr<O> t;
static O& take(O&& o) { t = std::make_unique<O>(std::move(o)); return *t; }
static void arg(O o) { take(std::move(o)); }
static O ret_none() { return opt::none; } static O ret_braces() { return {}; }
template<class F> static void depth(int j, F&& f) { if (j == 0) f(std::integral_constant<int, 0>{}); else if (j == 1) f(std::integral_constant<int, 1>{}); else if (j == 2) f(std::integral_constant<int, 2>{}); else if (j == 3) f(std::integral_constant<int, 3>{}); else if (j == 4) f(std::integral_constant<int, 4>{}); else ran = false; }
template<int J, class S> static void from(const std::string& op, S&& x) {
    if (op == "n_ctor") { O y(std::forward<S>(x)); take(std::move(y)); }
    else if (op == "n_list") { O y{std::forward<S>(x)}; take(std::move(y)); }
    else if (op == "n_init") { O y = std::forward<S>(x); take(std::move(y)); }
    else if (op == "n_assign") *t = std::forward<S>(x);
    else if (op == "n_arg") arg(std::forward<S>(x));
    else if constexpr (J < NEST) {
        if (op == "n_emplace") t->emplace(std::forward<S>(x));
        else if (op == "n_in_place") { O y{std::in_place, std::forward<S>(x)}; take(std::move(y)); }
        else ran = false;
    } else ran = false;
}
template<class A, int J> static void source(const std::string& op, int c, int cat) {
    using S = Opt<A, J>;
    S x = build<A, J>(c);
    auto go = [&](auto&& y) {
        using Q = decltype(y);
        if (op == "n_deduce") { opt::option z{static_cast<Q>(y)}; static_assert(std::is_same_v<decltype(z), Opt<A, (J == 0 ? 1 : J)>>); add(read<A, (J == 0 ? 1 : J)>(z)); }
        else if (op == "n_make") { auto z = opt::make_option(static_cast<Q>(y)); static_assert(std::is_same_v<decltype(z), Opt<A, J + 1>>); add(read<A, J + 1>(z)); }
        else from<J>(op, static_cast<Q>(y));
    };
    if (cat == 0) go(x); else if (cat == 1) go(std::as_const(x)); else go(std::move(x));
    if (cat != 2 && read<A, J>(x) != c) fail("the source was changed");
}
template<int K> static auto& inner(Opt<X, NEST>& o) { if constexpr (K == 0) return o; else return inner<K - 1>(o).get(); }
static void step(const Line& L) {
    const auto& op = L.op;
    auto A = [&](std::size_t n) { return int(L.a.at(n)); };
    if (op == "n_none") { O x(opt::none); take(std::move(x)); }
    else if (op == "n_init_none") { O x = opt::none; take(std::move(x)); }
    else if (op == "n_assign_none") *t = opt::none;
    else if (op == "n_assign_braces") *t = {};
    else if (op == "n_default") { O x; take(std::move(x)); }
    else if (op == "n_list_default") { O x{}; take(std::move(x)); }
    else if (op == "n_ret_none") take(ret_none());
    else if (op == "n_ret_braces") take(ret_braces());
    else if (op == "n_in_place_nothing") { O x(std::in_place); take(std::move(x)); }
    else if (op == "n_in_place_none") { O x{std::in_place, opt::none}; take(std::move(x)); }
    else if (op == "n_emplace_nothing") t->emplace();
    else if (op == "n_emplace_none") t->emplace(opt::none);
    else if (op == "n_inner" || op == "n_inner_none") depth(A(0), [&](auto k) {
        if constexpr (k >= 1 && k < NEST) {
            auto& in = inner<k>(*t);
            if (op == "n_inner_none") in = opt::none;
            else depth(A(1), [&](auto j) { if constexpr (j <= NEST - k) in = build<X, j>(A(2)); else ran = false; });
        } else ran = false;
    });
    else if (op == "n_deduce" || op == "n_make") depth(A(0), [&](auto j) { if constexpr (j <= NEST) source<X, j>(op, A(1), A(2)); else ran = false; });
    else depth(A(1), [&](auto j) { if constexpr (j <= NEST) { if (A(0)) source<Y, j>(op, A(2), A(3)); else source<X, j>(op, A(2), A(3)); } else ran = false; });
}
static std::string state() { return "[" + std::to_string(read<X, NEST>(*t)) + ",0]"; }
static void begin() { t = std::make_unique<O>(); }
#endif
int main(int, char** argv) {
    begin();
    for (auto& L : read_script(argv[1])) {
        res.clear(); ran = true;
        step(L);
        std::printf("{\"t\":%s,\"res\":[%s]%s", state().c_str(), res.c_str(), ran ? "" : ",\"skip\":1");
        if (!err().empty()) std::printf(",\"err\":%s", js(err()).c_str());
        std::puts("}"); err().clear(); std::fflush(stdout);
    }
}
