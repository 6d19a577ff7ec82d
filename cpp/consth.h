// Harness for C27: the same expressions as constants and at run time.
#pragma once
#include "miscbase.h"
#include <pigro/forward_like.h>
#include <pigro/overload.h>
#include <pigro/partition.h>
#include <pigro/recursive.h>
#include <pigro/regular_void.h>
#include <pigro/tuple_algorithms.h>
#include <pigro/utils.h>

namespace kc {
template<class A, class B> constexpr bool same = std::is_same_v<A, B>;
template<class T> using C = T;
struct P { int a = 0, b = 0; bool operator==(const P &) const = default; };
struct Em {};
enum class En : short { zero };
inline constexpr char text[] = "text";
constexpr long num(auto x) { return (long)x; }
constexpr long num(P p) { return p.a * 10 + p.b; }
constexpr bool equal(const auto &a, const auto &b) { return a == b; }
// the compiler knows nothing about x afterwards
void hide(auto &x) { asm volatile("" : : "r"(&x) : "memory"); }
} // namespace kc
