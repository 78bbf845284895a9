// Values of the small machines: V<T>::make(k), V<T>::code(x).
#pragma once
#include "payload.hpp"
namespace H {
template<class T> struct V : PL<T> {};
template<> struct V<int&> { static int& make(int k) { return objs[k]; } static int code(int& x) { return int(&x - objs); } };
template<> struct V<const std::string> : PL<std::string> {};
template<> struct V<opt::option<short>> { static opt::option<short> make(int k) { return k == 1 ? opt::option<short>{} : opt::option<short>{short(k)}; } static int code(const opt::option<short>& x) { return x ? *x : 1; } };
template<> struct V<long> { static long make(int k) { return k * 1000003L; } static int code(long x) { return x % 1000003L ? -1 : int(x / 1000003L); } };
template<class T> int vcode(const std::remove_reference_t<T>& x) { return V<T>::code(const_cast<std::remove_const_t<std::remove_reference_t<T>>&>(x)); }
}
