#pragma once
#include "payload.hpp"
#include <unordered_set>
struct HN { int a; bool operator==(const HN& o) const { return a == o.a; } };
struct HH { int a; };
struct HU { int a; };
struct HDefault { int a; };
using HPair = std::pair<int, int>;
template<> struct std::hash<HN> { std::size_t operator()(const HN& x) const noexcept { return std::size_t(x.a); } };
template<> struct std::hash<HH> { std::size_t operator()(const HH& x) const noexcept(false) { return std::size_t(x.a); } };
// a specialisation that cannot be used
template<> struct std::hash<HDefault> { hash() = delete; std::size_t operator()(const HDefault&) const noexcept { return 0; } };
template<class T, class = void> inline constexpr bool hashable = false;
template<class T> inline constexpr bool hashable<T, std::enable_if_t<std::is_default_constructible_v<std::hash<T>> && std::is_copy_constructible_v<std::hash<T>> && std::is_invocable_r_v<std::size_t, std::hash<T>, const T&>>> = true;
template<class T> inline constexpr bool hash_noexcept = noexcept(std::hash<T>{}(std::declval<const T&>()));
