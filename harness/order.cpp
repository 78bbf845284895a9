// Evaluates the rows of spec/Order.tla: comparisons.  -DVARIANT selects the types.   usage: order SCRIPT
#include "payload.hpp"
#include <cmath>
using namespace H;
using opt::option;
constexpr double nan_v = std::numeric_limits<double>::quiet_NaN();
enum class En { a = 1, b = 2, c = 3 };
// operators that have nothing to do with each other
template<int SIDE> struct Spy { int m; int side = SIDE; };
#define SPYOP(OP, BIT) template<int A, int B> bool operator OP(const Spy<A>& a, const Spy<B>& b) { if (a.side != 1 || b.side != 2 || a.m != b.m) fail("operands exchanged"); return (a.m & BIT) != 0; }
SPYOP(==, 1) SPYOP(!=, 2) SPYOP(<, 4) SPYOP(<=, 8) SPYOP(>, 16) SPYOP(>=, 32)

#if VARIANT == 0
using TL = int; using TR = int;
#elif VARIANT == 1
using TL = int; using TR = long;
#elif VARIANT == 2
using TL = double; using TR = double;
#elif VARIANT == 3
using TL = float; using TR = double;
#elif VARIANT == 4
using TL = std::string; using TR = std::string;
#elif VARIANT == 5
using TL = std::string; using TR = const char*;
#elif VARIANT == 6
using TL = std::string_view; using TR = std::string;
#elif VARIANT == 7
using TL = bool; using TR = bool;
#elif VARIANT == 8
using TL = int&; using TR = int;
#elif VARIANT == 9
using TL = const double&; using TR = double&;
#elif VARIANT == 10
using TL = option<int>; using TR = option<int>;
#elif VARIANT == 11
using TL = En; using TR = En;
#elif VARIANT == 12
using TL = std::vector<int>; using TR = std::vector<int>;
#elif VARIANT == 13
using TL = std::pair<int, bool>; using TR = std::pair<int, bool>;
#elif VARIANT == 14
using TL = const int; using TR = short;
#elif VARIANT == 15
using TL = TF; using TR = TF;
#elif VARIANT == 16
using TL = option<int>; using TR = int;
#elif VARIANT == 17
using TL = int; using TR = option<int>;
#elif VARIANT == 18
using TL = std::tuple<double, int>; using TR = std::tuple<float, long>;
#elif VARIANT == 19
using TL = Spy<1>; using TR = Spy<2>;
#elif VARIANT == 20
using TL = const int*; using TR = int*;
#elif VARIANT == 21
using TL = long&&; using TR = const long;
#elif VARIANT == 22
using TL = Spy<1>; using TR = Spy<1>;       // one type, the sides told apart by a member
#endif
template<class T, class = void> struct Mk { static T make(int k) { return T(k); } };
template<> struct Mk<double> { static double make(int k) { return k == 4 ? nan_v : k; } };
template<> struct Mk<float> { static float make(int k) { return k == 4 ? float(nan_v) : float(k); } };
template<> struct Mk<bool> { static bool make(int k) { return k == 2; } };
template<> struct Mk<std::string> { static std::string make(int k) { return k == 1 ? "" : k == 2 ? "b" : "c longer than the small buffer of a string"; } };
template<> struct Mk<const char*> { static const char* make(int k) { return k == 1 ? "" : k == 2 ? "b" : "c longer than the small buffer of a string"; } };
template<> struct Mk<std::string_view> { static std::string_view make(int k) { return Mk<const char*>::make(k); } };
template<> struct Mk<int&> { static int& make(int k) { static int v[4] = {0, 1, 2, 3}; return v[k]; } };
template<> struct Mk<long&&> { static long&& make(int k) { static long v[4] = {0, 1, 2, 3}; return std::move(v[k]); } };
template<> struct Mk<double&> { static double& make(int k) { static double v[5] = {0, 1, 2, 3, nan_v}; return v[k]; } };
template<> struct Mk<const double&> { static const double& make(int k) { static const double v[5] = {0, 1, 2, 3, nan_v}; return v[k]; } };
template<> struct Mk<option<int>> { static option<int> make(int k) { return k == 1 && VARIANT == 10 ? option<int>{} : option<int>{k}; } };
template<> struct Mk<std::vector<int>> { static std::vector<int> make(int k) { return std::vector<int>(k - 1, 7); } };
template<> struct Mk<std::pair<int, bool>> { static std::pair<int, bool> make(int k) { return {k / 2, k != 2}; } };
template<> struct Mk<std::tuple<double, int>> { static std::tuple<double, int> make(int k) { return {k == 4 ? nan_v : k / 2, k}; } };
template<> struct Mk<std::tuple<float, long>> { static std::tuple<float, long> make(int k) { return {k == 4 ? float(nan_v) : float(k / 2), k}; } };
static int arr[4];
template<> struct Mk<const int*> { static const int* make(int k) { return arr + k; } };
template<> struct Mk<int*> { static int* make(int k) { return arr + k; } };
static unsigned tick = 0;
// the same content reached in different ways
template<class T> static void fill(option<T>& o, int k) {
    using M = std::remove_cv_t<T>;
    o.emplace(Mk<M>::make(k % 3 + 1)); o.reset();
    if (k == 0) { if constexpr (!std::is_const_v<T>) { if (tick++ & 1) { o.emplace(Mk<M>::make(2)); (void)o.take(); } } return; }
    o.emplace(Mk<M>::make(k));
}
#define CASES(A, B, SH) \
    if (L.op == SH "_eq") r = (A) == (B); else if (L.op == SH "_ne") r = (A) != (B); else if (L.op == SH "_lt") r = (A) < (B); \
    else if (L.op == SH "_le") r = (A) <= (B); else if (L.op == SH "_gt") r = (A) > (B); else if (L.op == SH "_ge") r = (A) >= (B)
template<class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template<class TL, class TR> int go(const std::vector<Line>& s) {
    constexpr bool spy = std::is_same_v<bare<TL>, Spy<1>>;
    // comparing an option of options with its inner option is comparing two options
    constexpr bool nested = opt::is_option_v<bare<TL>> && opt::is_option_v<bare<TR>>;
    for (auto& L : s) {
        std::fflush(stdout);
        int r = -1;
        const int x = int(L.a[0]), y = int(L.a[1]);
        option<TL> a; option<TR> b;
        if constexpr (spy) { const int m = int(L.a[2]); if (x) a.emplace(TL{m, 1}); if (y) b.emplace(TR{m, 2}); }
        else { fill(a, x); fill(b, y); }
        const auto &ca = a; const auto &cb = b;
        const std::string sh = L.op.substr(0, 2);
        if (sh == "oo") { if (tick++ & 1) { CASES(a, b, "oo"); } else { CASES(ca, cb, "oo"); } }
        else if (sh == "on") { CASES(ca, opt::none, "on"); }
        else if (sh == "no") { CASES(opt::none, cb, "no"); }
        else if constexpr (nested) { std::puts("{\"r\":\"n/a\"}"); continue; }
        else if (sh == "ov") { if constexpr (!opt::is_option_v<bare<TR>>) { CASES(ca, cb.get(), "ov"); } else { std::puts("{\"r\":\"n/a\"}"); continue; } }
        else if (sh == "vo") { if constexpr (!opt::is_option_v<bare<TL>>) { CASES(ca.get(), cb, "vo"); } else { std::puts("{\"r\":\"n/a\"}"); continue; } }
        if (r < 0) std::puts("{\"skip\":1}");
        else std::printf("{\"r\":%s%s}\n", r ? "true" : "false", err().empty() ? "" : (",\"err\":" + js(err())).c_str());
        err().clear();
    }
    return 0;
}
#if VARIANT == 30
// which operators exist
struct full { friend bool operator==(full, full) { return true; } friend bool operator!=(full, full) { return true; } friend bool operator<(full, full) { return true; } friend bool operator<=(full, full) { return true; } friend bool operator>(full, full) { return true; } friend bool operator>=(full, full) { return true; } };
struct eqonly { friend bool operator==(eqonly, eqonly) { return true; } friend bool operator!=(eqonly, eqonly) { return true; } };
struct ltonly { friend bool operator<(ltonly, ltonly) { return true; } };
struct nothing {};
#define DETECT(NAME, OP) \
    template<class A, class B, class = void> struct has_##NAME : std::false_type {}; \
    template<class A, class B> struct has_##NAME<A, B, std::void_t<decltype(std::declval<const A&>() OP std::declval<const B&>())>> : std::true_type {};
DETECT(eq, ==) DETECT(ne, !=) DETECT(lt, <) DETECT(le, <=) DETECT(gt, >) DETECT(ge, >=)
int main(int, char** argv) {
    std::map<std::string, bool> t;
#define ONE(T, OP) t["exists_" #T "_oo_" #OP] = has_##OP<option<T>, option<T>>::value; t["exists_" #T "_ov_" #OP] = has_##OP<option<T>, T>::value; t["exists_" #T "_vo_" #OP] = has_##OP<T, option<T>>::value; \
    t["exists_" #T "_on_" #OP] = has_##OP<option<T>, opt::none_t>::value; t["exists_" #T "_no_" #OP] = has_##OP<opt::none_t, option<T>>::value;
#define ALL(T) ONE(T, eq) ONE(T, ne) ONE(T, lt) ONE(T, le) ONE(T, gt) ONE(T, ge)
    ALL(full) ALL(eqonly) ALL(ltonly) ALL(nothing)
    for (auto& L : read_script(argv[1])) { if (t.count(L.op)) std::printf("{\"r\":%s}\n", t[L.op] ? "true" : "false"); else std::puts("{\"skip\":1}"); }
}
#else
int main(int, char** argv) { return go<TL, TR>(read_script(argv[1])); }
#endif
