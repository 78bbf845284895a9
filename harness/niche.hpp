// Conformance of real types with the rows of spec/Niche.tla (types and rows are generated).
#pragma once
#include <bitset>
#include <chrono>
#include <list>
#include <map>
#include <memory_resource>
#include <optional>
#include <typeinfo>
#include <variant>
#include "payload.hpp"
using namespace H;
using S_2 = opt::sentinel<int, -1, -300>;
using SF_3 = opt::sentinel_f<int, EqI, SetI, -1, 77, -300>;
using MB_p = opt::member<Mem, &Mem::p>; using MB_b = opt::member<MemC, &MemC::f>;

// tuple-like types: elements through a member function, or through a function found by ADL
template<class A, class B> struct TLM {
    A a; B b; TLM(A x, B y) : a(std::move(x)), b(std::move(y)) {}
    template<std::size_t I> auto& get() { if constexpr (I == 0) return a; else return b; }
    template<std::size_t I> const auto& get() const { if constexpr (I == 0) return a; else return b; }
};
template<class... Ts> struct TLF { std::tuple<Ts...> t; explicit TLF(Ts... x) : t(std::move(x)...) {} };
template<std::size_t I, class... Ts> auto& get(TLF<Ts...>& x) { return std::get<I>(x.t); }
template<std::size_t I, class... Ts> const auto& get(const TLF<Ts...>& x) { return std::get<I>(x.t); }
template<class A, class B> struct std::tuple_size<TLM<A, B>> : std::integral_constant<std::size_t, 2> {};
template<class A, class B> struct std::tuple_element<0, TLM<A, B>> { using type = A; };
template<class A, class B> struct std::tuple_element<1, TLM<A, B>> { using type = B; };
template<class... Ts> struct std::tuple_size<TLF<Ts...>> : std::integral_constant<std::size_t, sizeof...(Ts)> {};
template<std::size_t I, class... Ts> struct std::tuple_element<I, TLF<Ts...>> : std::tuple_element<I, std::tuple<Ts...>> {};

// containers and owners whose allocator or deleter is not the standard one
template<class T> struct AllocS {       // with a state
    using value_type = T; std::uintptr_t tag = 0;
    AllocS() = default; explicit AllocS(std::uintptr_t t) : tag(t) {} template<class U> AllocS(const AllocS<U>& o) : tag(o.tag) {}
    T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
    void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
    template<class U> friend bool operator==(const AllocS& a, const AllocS<U>& b) { return a.tag == b.tag; }
    template<class U> friend bool operator!=(const AllocS& a, const AllocS<U>& b) { return a.tag != b.tag; }
    using propagate_on_container_copy_assignment = std::true_type; using propagate_on_container_move_assignment = std::true_type; using propagate_on_container_swap = std::true_type;
};
template<class T> struct AllocE {       // empty
    using value_type = T; using is_always_equal = std::true_type;
    AllocE() = default; template<class U> AllocE(const AllocE<U>&) {}
    T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
    void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
    template<class U> friend bool operator==(const AllocE&, const AllocE<U>&) { return true; }
    template<class U> friend bool operator!=(const AllocE&, const AllocE<U>&) { return false; }
};
// enumerations: the unused values start after the last enumerator below 256 (one byte) or 1024, rounded up to a power of two
enum class EF5 : unsigned char { a = 1, b = 2, f = 16 }; enum class EF8 : unsigned char { a = 7 }; enum class EFull : unsigned char { a = 255 }; enum class ENone : unsigned char {};
enum class EF9 : unsigned short { a = 1, f = 256 }; enum class EF10 : unsigned { a, f = 512 }; enum class E64 : unsigned long long { a, b = 1ull << 63 }; enum class EC : char16_t { a, b };
enum class EFar : unsigned short { a = 65535, b = 1022 }; enum class EFar2 : unsigned short { a = 65535, b = 1023 }; enum class EBool : bool { f, t }; enum EOne { e_one };
enum class ESigned : signed char { a = -1, b = 5 }; enum EF6 : std::size_t { e6_a = 33, e6_b = 5000 };
struct DelE { void operator()(int* p) const { delete p; } };
struct DelS { std::uintptr_t tag = 0; void operator()(int* p) const { delete p; } };
inline void del_fn(int* p) { delete p; }
struct CaseTraits : std::char_traits<char> {};
using StrS = std::basic_string<char, std::char_traits<char>, AllocS<char>>; using StrE = std::basic_string<char, std::char_traits<char>, AllocE<char>>;
using StrT = std::basic_string<char, CaseTraits>; using ViewT = std::basic_string_view<char, CaseTraits>;
using VecS = std::vector<int, AllocS<int>>; using VecE = std::vector<int, AllocE<int>>; using VecBS = std::vector<bool, AllocS<bool>>; using VecBE = std::vector<bool, AllocE<bool>>;
using PtrDE = std::unique_ptr<int, DelE>; using PtrDS = std::unique_ptr<int, DelS>; using PtrDF = std::unique_ptr<int, void (*)(int*)>;
template<class S> struct PLStr {        // one short, one that fills the local buffer, one on the heap
    static S make(int k) { return k == 1 ? S("a") : k == 2 ? S(15, 'b') : S(40, 'c'); }
    static int code(const S& x) { return x.empty() ? MOVED : x == make(1) ? 1 : x == make(2) ? 2 : x == make(3) ? 3 : -1; }
};
template<> struct H::PL<StrS> { static StrS make(int k) { StrS r(AllocS<char>{std::uintptr_t(k)}); r.assign(k == 1 ? 1 : k * 13, 'a'); return r; }
    static int code(const StrS& x) { int k = int(x.get_allocator().tag); return x.size() == std::size_t(k == 1 ? 1 : k * 13) && x.find_first_not_of('a') == x.npos ? k : -1; } };
template<> struct H::PL<StrE> : PLStr<StrE> {};
template<> struct H::PL<StrT> : PLStr<StrT> {};
template<> struct H::PL<ViewT> { static ViewT make(int k) { return k == 1 ? ViewT() : k == 2 ? ViewT("abcdef", 4) : ViewT("", 0); }
    static int code(const ViewT& x) { return x.data() == nullptr ? 1 : x.size() == 4 ? 2 : x.empty() ? 3 : -1; } };
template<class S, class A> struct PLVec {
    static S make(int k) { S r(A{}); for (int i = 1; i < k; ++i) r.push_back(1); return r; }    // 1: nothing allocated
    static int code(const S& x) { return int(x.size()) + 1; }
};
template<> struct H::PL<VecE> : PLVec<VecE, AllocE<int>> {};
template<> struct H::PL<VecBE> : PLVec<VecBE, AllocE<bool>> {};
template<class S, class A> struct PLVecS {
    static S make(int k) { S r(A{std::uintptr_t(k - 1)}); for (int i = 1; i < k; ++i) r.push_back(1); return r; }
    static int code(const S& x) { return x.size() == x.get_allocator().tag ? int(x.size()) + 1 : -1; }
};
template<> struct H::PL<VecS> : PLVecS<VecS, AllocS<int>> {};
template<> struct H::PL<VecBS> : PLVecS<VecBS, AllocS<bool>> {};
template<class P> struct PLPtr { template<class Dl> static P mk(int k, Dl d) { return k == 1 ? P(nullptr, d) : P(new int(k), d); } static int code(const P& x) { return x ? *x : 1; } };
template<> struct H::PL<PtrDE> : PLPtr<PtrDE> { static PtrDE make(int k) { return mk(k, DelE{}); } };
template<> struct H::PL<PtrDS> : PLPtr<PtrDS> { static PtrDS make(int k) { return mk(k, DelS{std::uintptr_t(k)}); } static int code(const PtrDS& x) { int k = PLPtr<PtrDS>::code(x); return x.get_deleter().tag == std::uintptr_t(k) ? k : -1; } };
template<> struct H::PL<PtrDF> : PLPtr<PtrDF> { static PtrDF make(int k) { return mk(k, &del_fn); } static int code(const PtrDF& x) { return x.get_deleter() == &del_fn ? PLPtr<PtrDF>::code(x) : -1; } };

#define V_ENUM(E, A, B, C) template<> struct H::PL<E> { static E make(int k) { return k == 1 ? A : k == 2 ? B : C; } static int code(const E& x) { return x == A ? 1 : x == B ? 2 : x == C ? 3 : -1; } };
V_ENUM(EF5, EF5::a, EF5::f, EF5(19)) V_ENUM(EF8, EF8::a, EF8(0), EF8(5)) V_ENUM(EFull, EFull::a, EFull(0), EFull(254)) V_ENUM(ENone, ENone(0), ENone(255), ENone(128))
V_ENUM(EF9, EF9::a, EF9::f, EF9(257)) V_ENUM(EF10, EF10::a, EF10::f, EF10(4096)) V_ENUM(E64, E64::a, E64::b, E64(1024)) V_ENUM(EC, EC::a, EC::b, EC(1024))
V_ENUM(EFar, EFar::a, EFar::b, EFar(0)) V_ENUM(EFar2, EFar2::a, EFar2::b, EFar2(1022)) V_ENUM(ESigned, ESigned::a, ESigned::b, ESigned(-128)) V_ENUM(EF6, e6_a, e6_b, EF6(63))

// V<T>: n ordinary values, built by make(i), recognised by is(x, i)
template<class T, class = void> struct V {
    static constexpr int n = 3;
    static T make(int i) { return PL<T>::make(i + 1); }
    static bool is(const T& x, int i) { return PL<T>::code(x) == i + 1; }
};
template<> struct V<EBool> { static constexpr int n = 2; static EBool make(int i) { return EBool(i); } static bool is(const EBool& x, int i) { return x == EBool(i); } };
template<> struct V<EOne> { static constexpr int n = 1; static EOne make(int) { return e_one; } static bool is(const EOne& x, int) { return x == e_one; } };
// further kinds of types
template<class T> struct V<const T> : V<T> {};
#define V_EQ(T, A, B, C) template<> struct V<T> { using TT = T; static constexpr int n = 3; static TT make(int i) { return i == 0 ? TT(A) : i == 1 ? TT(B) : TT(C); } static bool is(const TT& x, int i) { return x == make(i); } };
#define V_ONE(T, S) template<> struct V<T> { static constexpr int n = 1; static T make(int) { return T(); } static bool is(const T& x, int) { (void)x; return S; } };
struct Inc; class Nothing {}; struct FinalC final {};
union Uni { int i; float f; }; struct VirtB { int v = 0; }; struct VirtOnly : virtual VirtB { int c = 0; };
struct OptedOut { bool b; int i; };
#if __has_include(<boost/pfr.hpp>)     // documented: reflection is opted out of with opt::option_tag (needed for what the library of reflection cannot take apart)
#include <boost/pfr.hpp>
template<> struct boost::pfr::is_reflectable<Uni, opt::option_tag> : std::false_type {};
template<> struct boost::pfr::is_reflectable<OptedOut, opt::option_tag> : std::false_type {};
#endif
struct PolyNo { virtual ~PolyNo() = default; PolyNo() = default; PolyNo(const PolyNo&) = default; PolyNo& operator=(const PolyNo&) = default; };
struct PA { int a = 0; virtual int fa() const { return a; } virtual ~PA() = default; PA() = default; PA(const PA&) = default; PA& operator=(const PA&) = default; };
struct PB { int b = 0; virtual int fb() const { return b; } virtual ~PB() = default; PB() = default; PB(const PB&) = default; PB& operator=(const PB&) = default; };
struct PolyTwo : PA, PB { int fb() const override { return b * 3; } };
struct PolyVB : virtual PA { int c = 0; };
struct PolyPk { virtual int f() const { return 1; } char c = 0; };
using PtrPtr = int**; using PtrInc = Inc*; using PtrArr = int (*)[3]; using FnNoex = void (*)() noexcept; using FnVar = int (*)(const char*, ...); using VecVec = std::vector<std::vector<int>>; using VecUniq = std::vector<std::unique_ptr<int>>;
struct HasM { int i; const int ci; int* p; void f() {} void g() const {} virtual void v() {} virtual void w() {} };
using MFConst = void (HasM::*)() const; using MFInc = int (Inc::*)(Inc*); using MFVirt = void (HasM::*)(); using MDInc = int Inc::*; using MDConst = const int HasM::*; using MDPP = int* HasM::*;
using RefFn = std::reference_wrapper<void()>; using RefInc = std::reference_wrapper<Inc>; using VarB = std::variant<bool, int>; using MapII = std::map<int, int>; using Arr0 = std::array<bool, 0>; using IntPtrC = int* const; using MDPtrC = const MDPtr;
inline int k_ints[3]; inline int* k_ptrs[3]; inline void k_fn1() noexcept {} inline void k_fn2() noexcept {} inline int k_va1(const char*, ...) { return 1; } inline int k_va2(const char*, ...) { return 2; }
struct Inc { int d; int f(Inc*) { return 0; } int g(Inc*) { return 1; } }; inline Inc k_inc[2];      // completed only here
V_EQ(void*, nullptr, k_ints, &k_inc) V_EQ(const char*, nullptr, "", "x") V_EQ(PtrPtr, nullptr, k_ptrs, k_ptrs + 1) V_EQ(PtrInc, nullptr, k_inc, k_inc + 1) V_EQ(PtrArr, nullptr, &k_ints, nullptr)
V_EQ(FnNoex, nullptr, &k_fn1, &k_fn2) V_EQ(FnVar, nullptr, &k_va1, &k_va2)
V_EQ(std::wstring, L"", L"abc", std::wstring(40, L'x')) V_EQ(std::u32string, U"", U"abc", std::u32string(40, U'x')) V_EQ(VecVec, VecVec{}, VecVec(2), VecVec(1, std::vector<int>(3)))
template<> struct V<const Poly*> { static constexpr int n = 2; static const Poly* make(int i) { static const Poly p(1); return i ? &p : nullptr; } static bool is(const Poly* const& x, int i) { return x == make(i); } };
template<class S> struct VView { static constexpr int n = 3; static S make(int i) { static const typename S::value_type c[] = {'a', 'b', 'c', 0}; return i == 0 ? S() : i == 1 ? S(c, 0) : S(c + 1, 2); } static bool is(const S& x, int i) { S m = make(i); return x.data() == m.data() && x.size() == m.size(); } };
template<> struct V<std::wstring_view> : VView<std::wstring_view> {}; template<> struct V<std::u32string_view> : VView<std::u32string_view> {};
template<> struct V<VecUniq> { static constexpr int n = 3; static VecUniq make(int i) { VecUniq r; for (int k = 0; k < i; ++k) r.push_back(std::make_unique<int>(k)); return r; } static bool is(const VecUniq& x, int i) { if (int(x.size()) != i) return false; for (int k = 0; k < i; ++k) if (*x[std::size_t(k)] != k) return false; return true; } };
template<> struct V<std::unique_ptr<const int>> { static constexpr int n = 2; using P = std::unique_ptr<const int>; static P make(int i) { return i ? P(new int(i)) : P(); } static bool is(const P& x, int i) { return i ? x && *x == i : !x; } };
template<> struct V<std::unique_ptr<Poly>> { static constexpr int n = 3; using P = std::unique_ptr<Poly>; static P make(int i) { return i == 2 ? P(new PolyD(2)) : i ? P(new Poly(1)) : P(); } static bool is(const P& x, int i) { return i == 2 ? x && x->id() == 14 : i ? x && x->id() == 1 : !x; } };
V_ONE(PolyNo, typeid(x) == typeid(PolyNo))
template<> struct V<PolyTwo> { static constexpr int n = 3; static PolyTwo make(int i) { PolyTwo r; r.a = i; r.b = i + 7; return r; } static bool is(const PolyTwo& x, int i) { const PB& b = x; return x.fa() == i && b.fb() == (i + 7) * 3; } };
template<> struct V<PolyVB> { static constexpr int n = 3; static PolyVB make(int i) { PolyVB r; r.a = i; r.c = i + 7; return r; } static bool is(const PolyVB& x, int i) { const PA& a = x; return a.fa() == i && x.c == i + 7; } };
template<> struct V<PolyPk> { static constexpr int n = 3; static PolyPk make(int i) { PolyPk r; r.c = char(i - 1); return r; } static bool is(const PolyPk& x, int i) { return x.f() == 1 && x.c == char(i - 1); } };
V_EQ(MFConst, nullptr, &HasM::g, nullptr) V_EQ(MFInc, nullptr, &Inc::f, &Inc::g) V_EQ(MFVirt, &HasM::f, &HasM::v, &HasM::w) V_EQ(MDInc, nullptr, &Inc::d, &Inc::d) V_EQ(MDConst, nullptr, &HasM::ci, &HasM::ci) V_EQ(MDPP, nullptr, &HasM::p, &HasM::p)
template<class T, class X> struct VRef { static constexpr int n = 2; static bool is(const T& x, int i) { return &x.get() == &V<T>::at(i); } static T make(int i) { return T(V<T>::at(i)); } };
template<> struct V<std::reference_wrapper<const int>> : VRef<std::reference_wrapper<const int>, const int> { static const int& at(int i) { return k_ints[i]; } };
template<> struct V<RefFn> : VRef<RefFn, void()> { static void (&at(int i))() { return i ? reinterpret_cast<void (&)()>(k_fn1) : reinterpret_cast<void (&)()>(k_fn2); } };
template<> struct V<RefInc> : VRef<RefInc, Inc> { static Inc& at(int i) { return k_inc[i]; } };
V_ONE(Nothing, true) V_ONE(FinalC, true) V_ONE(std::nullptr_t, x == nullptr) V_ONE(std::monostate, true) V_ONE(Arr0, true)
template<> struct V<Uni> { static constexpr int n = 3; static Uni make(int i) { Uni u; u.i = i - 1; return u; } static bool is(const Uni& x, int i) { return x.i == i - 1; } };
template<> struct V<OptedOut> { static constexpr int n = 4; static OptedOut make(int i) { return {i % 2 == 1, i}; } static bool is(const OptedOut& x, int i) { return x.b == (i % 2 == 1) && x.i == i; } };
V_EQ(std::byte, 0, 255, 7) V_EQ(__int128, -1, 0, __int128(1) << 100) V_EQ(__float128, 0, -1, 1.5) V_EQ(std::optional<bool>, std::nullopt, true, false) V_EQ(VarB, true, 3, false)
V_EQ(std::list<int>, std::list<int>{}, std::list<int>(2), std::list<int>(3)) V_EQ(MapII, MapII{}, (MapII{{1, 2}}), (MapII{{3, 4}})) V_EQ(std::chrono::seconds, -1, 0, 5) V_EQ(std::bitset<4>, 0, 15, 5)
V_EQ(std::pmr::string, "", "abc", std::pmr::string(40, 'x')) V_EQ(std::pmr::vector<int>, std::pmr::vector<int>(), std::pmr::vector<int>(2), std::pmr::vector<int>(3))
template<> struct V<VirtOnly> { static constexpr int n = 3; static VirtOnly make(int i) { VirtOnly r; r.v = i; r.c = -i; return r; } static bool is(const VirtOnly& x, int i) { return x.v == i && x.c == -i; } };
template<> struct V<std::weak_ptr<int>> { static constexpr int n = 2; static const std::shared_ptr<int>& own() { static const auto p = std::make_shared<int>(5); return p; } static std::weak_ptr<int> make(int i) { return i ? std::weak_ptr<int>(own()) : std::weak_ptr<int>(); } static bool is(const std::weak_ptr<int>& x, int i) { return x.lock() == (i ? own() : nullptr); } };
template<> struct V<bool> { static constexpr int n = 2; static bool make(int i) { return PL<bool>::make(i + 1); } static bool is(const bool& x, int i) { return PL<bool>::code(x) == i + 1; } };
template<class T> struct V<std::complex<T>> {
    static constexpr int n = V<T>::n * V<T>::n;
    static std::complex<T> make(int i) { std::complex<T> r; r.real(V<T>::make(i % V<T>::n)); r.imag(V<T>::make(i / V<T>::n)); return r; }
    static bool is(const std::complex<T>& x, int i) { T a = x.real(), b = x.imag(); return V<T>::is(a, i % V<T>::n) && V<T>::is(b, i / V<T>::n); }
};
template<class X> struct V<opt::option<X>> {
    static constexpr int n = V<X>::n + 1;      // 0: the inner option is empty
    static opt::option<X> make(int i) { if (i == 0) return {}; return opt::option<X>(std::in_place, V<X>::make(i - 1)); }
    static bool is(const opt::option<X>& x, int i) { return i == 0 ? !x.has_value() : x.has_value() && V<X>::is(*x, i - 1); }
};
template<class A, class B> struct V2 {
    static constexpr int n = V<A>::n * V<B>::n;
};
template<class A, class B> struct V<std::pair<A, B>> {
    static constexpr int n = V<A>::n * V<B>::n;
    static std::pair<A, B> make(int i) { return {V<A>::make(i % V<A>::n), V<B>::make(i / V<A>::n)}; }
    static bool is(const std::pair<A, B>& x, int i) { return V<A>::is(x.first, i % V<A>::n) && V<B>::is(x.second, i / V<A>::n); }
};
template<class A, class B> struct V<TLM<A, B>> {
    static constexpr int n = V<A>::n * V<B>::n;
    static TLM<A, B> make(int i) { return {V<A>::make(i % V<A>::n), V<B>::make(i / V<A>::n)}; }
    static bool is(const TLM<A, B>& x, int i) { return V<A>::is(x.a, i % V<A>::n) && V<B>::is(x.b, i / V<A>::n); }
};
template<class... Ts> struct VT {
    static constexpr int n = (V<Ts>::n * ...);
    template<class R, std::size_t... I> static R mk(int i, std::index_sequence<I...>) {
        int d[sizeof...(Ts)]; const int ns[] = {V<Ts>::n...};
        for (std::size_t k = 0; k < sizeof...(Ts); ++k) { d[k] = i % ns[k]; i /= ns[k]; }
        return R(V<Ts>::make(d[I])...);
    }
    template<std::size_t... I> static bool ck(const std::tuple<Ts...>& x, int i, std::index_sequence<I...>) {
        int d[sizeof...(Ts)]; const int ns[] = {V<Ts>::n...};
        for (std::size_t k = 0; k < sizeof...(Ts); ++k) { d[k] = i % ns[k]; i /= ns[k]; }
        return (V<Ts>::is(std::get<I>(x), d[I]) && ...);
    }
};
template<class... Ts> struct V<std::tuple<Ts...>> : VT<Ts...> {
    static std::tuple<Ts...> make(int i) { return VT<Ts...>::template mk<std::tuple<Ts...>>(i, std::index_sequence_for<Ts...>{}); }
    static bool is(const std::tuple<Ts...>& x, int i) { return VT<Ts...>::ck(x, i, std::index_sequence_for<Ts...>{}); }
};
template<class... Ts> struct V<TLF<Ts...>> : VT<Ts...> {
    static TLF<Ts...> make(int i) { return VT<Ts...>::template mk<TLF<Ts...>>(i, std::index_sequence_for<Ts...>{}); }
    static bool is(const TLF<Ts...>& x, int i) { return VT<Ts...>::ck(x.t, i, std::index_sequence_for<Ts...>{}); }
};
template<class E, std::size_t N> struct V<std::array<E, N>> {
    static constexpr int pw() { int r = 1; for (std::size_t k = 0; k < N; ++k) r *= V<E>::n; return r; }
    static constexpr int n = pw();
    template<std::size_t... I> static std::array<E, N> mk(int i, std::index_sequence<I...>) {
        int d[N]; for (std::size_t k = 0; k < N; ++k) { d[k] = i % V<E>::n; i /= V<E>::n; }
        return {{V<E>::make(d[I])...}};
    }
    static std::array<E, N> make(int i) { return mk(i, std::make_index_sequence<N>{}); }
    static bool is(const std::array<E, N>& x, int i) { for (auto& e : x) { if (!V<E>::is(e, i % V<E>::n)) return false; i /= V<E>::n; } return true; }
};
// generated aggregates specialise V with this
#define H_VAGG(G, A, B, ...) \
    template<> struct V<G> { using VV = VT<__VA_ARGS__>; static constexpr int n = VV::n; \
        static G make(int i) { return build(VV::template mk<std::tuple<__VA_ARGS__>>(i, std::make_index_sequence<std::tuple_size_v<std::tuple<__VA_ARGS__>>>{}), std::make_index_sequence<std::tuple_size_v<std::tuple<__VA_ARGS__>>>{}); } \
        template<class Tup, std::size_t... I> static G build(Tup&& t, std::index_sequence<I...>) { return G{std::get<I>(std::move(t))...}; } \
        static bool is(const G& x, int i) { const auto& [A] = x; return is2(i, B); } \
        template<class... X> static bool is2(int i, const X&... x) { const int ns[] = {V<X>::n...}; int d[sizeof...(X)]; for (std::size_t k = 0; k < sizeof...(X); ++k) { d[k] = i % ns[k]; i /= ns[k]; } std::size_t k = 0; return (V<X>::is(x, d[k++]) && ...); } \
    };

template<class T, int N> struct NO { using type = opt::option<typename NO<T, N - 1>::type>; };
template<class T> struct NO<T, 0> { using type = T; };
template<class T> struct Flagged { T v; bool f; };

inline std::string why;
inline bool bad(const std::string& s) { if (why.empty()) why = s; return false; }
#define CK(X, S) do { if (!(X)) return bad(std::string(S)); } while (0)

template<class T> bool history(int i, int j) {
    using O = opt::option<T>; using VT_ = V<T>;
    auto full = [&](const O& o, int k) { return o.has_value() && VT_::is(*o, k); };
    O o(std::in_place, VT_::make(i));
    CK(full(o, i), "stored value is not read back");
    if constexpr (copyable<T> && std::is_copy_constructible_v<T>) {
        O c(o); CK(full(c, i) && full(o, i), "copy");
        T v(*o); O d(v); CK(full(d, i), "made from a value");
        if constexpr (std::is_copy_assignable_v<T>) { c = O(std::in_place, VT_::make(j)); CK(full(c, j), "assigned option"); c = v; CK(full(c, i), "assigned value"); c.reset(); c = o; CK(full(c, i) && full(o, i), "assigned to empty"); }
    }
    o.reset(); CK(!o.has_value(), "engaged after reset");
    o.emplace(VT_::make(j)); CK(full(o, j), "emplaced value is not read back");
    { O m(std::move(o)); CK(full(m, j), "moved value"); o = std::move(m); CK(full(o, j), "moved back"); }
    O e; CK(!e.has_value(), "default is engaged");
    e.swap(o); CK(full(e, j) && !o.has_value(), "swap with empty");
    { O t = e.take(); CK(full(t, j) && !e.has_value(), "take"); e = std::move(t); }
    if constexpr (std::is_move_assignable_v<T>) { *e = VT_::make(i); CK(full(e, i), "value written through the option"); }
    e = opt::none; CK(!e.has_value(), "engaged after none");
    e = O(std::in_place, VT_::make(j)); CK(full(e, j), "assigned to emptied");
    // two and three deep: all contents apart
    using O2 = opt::option<O>; using O3 = opt::option<O2>;
    O3 x; CK(!x.has_value(), "3: none");
    x.emplace(); CK(x.has_value() && !x->has_value(), "3: some(none)");
    (*x).emplace(); CK(x.has_value() && x->has_value() && !(*x)->has_value(), "3: some(some(none))");
    (**x).emplace(VT_::make(i)); CK(x.has_value() && x->has_value() && full(**x, i), "3: value");
    (**x).reset(); CK(x.has_value() && x->has_value() && !(*x)->has_value(), "3: emptied inside");
    **x = O(std::in_place, VT_::make(j)); CK(x.has_value() && x->has_value() && full(**x, j), "3: assigned inside");
    (*x).reset(); CK(x.has_value() && !x->has_value(), "3: emptied in the middle");
    x = opt::none; CK(!x.has_value(), "3: emptied");
    x = O3(std::in_place, std::in_place, std::in_place, VT_::make(i)); CK(x.has_value() && x->has_value() && full(**x, i), "3: in place");
    return true;
}
// every state of an allocator or deleter is an ordinary one: also those an empty option is found to contain
template<class T> struct State { static constexpr bool any = false; };
template<class T, class A> struct StateOf { static constexpr bool any = true; static T make(std::uintptr_t w) { return T(A{w}); } static bool is(const T& x, std::uintptr_t w) { return x.empty() && x.get_allocator().tag == w; } };
template<> struct State<StrS> : StateOf<StrS, AllocS<char>> {};
template<> struct State<VecS> : StateOf<VecS, AllocS<int>> {};
template<> struct State<VecBS> : StateOf<VecBS, AllocS<bool>> {};
template<> struct State<PtrDS> { static constexpr bool any = true; static PtrDS make(std::uintptr_t w) { return PtrDS(nullptr, DelS{w}); } static bool is(const PtrDS& x, std::uintptr_t w) { return !x && x.get_deleter().tag == w; } };
template<class T, class O> bool states_in_empty(const O& e) {
    using S = State<T>;
    for (std::size_t off = 0; off + sizeof(std::uintptr_t) <= sizeof(O); off += sizeof(std::uintptr_t)) {
        std::uintptr_t w; std::memcpy(&w, reinterpret_cast<const unsigned char*>(&e) + off, sizeof w);
        opt::option<T> o(std::in_place, S::make(w)); CK(o.has_value() && S::is(*o, w), "engaged option with the state " + std::to_string(w) + " reads as empty");
        o.reset(); CK(!o.has_value(), "engaged after reset"); o.emplace(S::make(w)); CK(o.has_value() && S::is(*o, w), "emplaced state " + std::to_string(w));
        opt::option<opt::option<T>> p(std::in_place, std::move(o)); CK(p.has_value() && p->has_value() && S::is(**p, w), "nested state " + std::to_string(w));
    }
    return true;
}
template<class T> bool states() {
    if constexpr (State<T>::any) {
        using O = opt::option<T>; using O2 = opt::option<O>;
        alignas(O) unsigned char b[sizeof(O)] = {}; O* o = new (b) O; bool ok = states_in_empty<T>(*o); o->~O();
        alignas(O2) unsigned char c[sizeof(O2)] = {}; O2* p = new (c) O2; ok = ok && states_in_empty<T>(*p); p->emplace(); ok = ok && states_in_empty<T>(*p); p->~O2();
        return ok;
    }
    return true;
}
template<class T> bool levels() {
    using Tr = opt::option_traits<T>;
    if constexpr (Tr::max_level > 0) {
        alignas(T) unsigned char buf[sizeof(T)];
        const unsigned long m = Tr::max_level < 700 ? Tr::max_level : 700;
        for (unsigned pat : {0x00u, 0xFFu, 0x5Au}) for (unsigned long k = 0; k < m; ++k) {
            std::memset(buf, int(pat), sizeof buf);
            // user traits assign to the object
            Tr::set_level(reinterpret_cast<T*>(buf), k);
            CK(Tr::get_level(reinterpret_cast<const T*>(buf)) == k, "level " + std::to_string(k) + " is not read back");
        }
        for (int i = 0; i < V<T>::n; ++i) { T v(V<T>::make(i)); CK(Tr::get_level(std::addressof(v)) >= Tr::max_level, "ordinary value " + std::to_string(i) + " has a level"); }
    }
    return true;
}
// an object with a constant in it cannot be assigned: only sizes and levels are looked at
template<class T> struct Writable : std::bool_constant<std::is_move_assignable_v<T>> {};
template<class T> void row(int id, bool run) {
    std::string out = "{\"id\":" + std::to_string(id) + ",\"levels\":" + std::to_string(opt::option_traits<T>::max_level) + ",\"flags\":[";
    const std::size_t plain = sizeof(T), flagged = sizeof(Flagged<T>);
    const std::size_t s[] = {sizeof(typename NO<T, 1>::type), sizeof(typename NO<T, 2>::type), sizeof(typename NO<T, 3>::type), sizeof(typename NO<T, 4>::type), sizeof(typename NO<T, 5>::type), sizeof(typename NO<T, 6>::type)};
    for (int k = 0; k < 6; ++k) out += (k ? "," : "") + std::string(s[k] == plain ? "0" : s[k] == flagged ? "1" : "9");
    out += "]";
    why.clear();
    int cases = 0;
    if constexpr (!Writable<T>::value) {}
    else if (run) {
        for (int i = 0; i < V<T>::n; ++i) for (int s = 0; s < (V<T>::n > 12 ? 2 : 4); ++s) { ++cases; if (!history<T>(i, (i * 7 + 1 + s * 5) % V<T>::n)) { why += " (values " + std::to_string(i) + ", " + std::to_string((i * 7 + 1 + s * 5) % V<T>::n) + ")"; goto end; } }
        levels<T>(); states<T>();
    end:;
    }
    std::puts((out + ",\"cases\":" + std::to_string(cases) + ",\"why\":" + js(why) + "}").c_str());
    std::fflush(stdout);
}
