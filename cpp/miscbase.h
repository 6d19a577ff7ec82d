// Helpers shared by the harnesses that are not about lazy functions. Does not
// depend on the library under test.
#pragma once
#include "vals.h"

#define CK(...) c.check(bool(__VA_ARGS__), #__VA_ARGS__)
#define CKM(what, ...) c.check(bool(__VA_ARGS__), what)

// a tuple-like type of a user of the library
namespace usr {
template<class... Ts>
struct Tup {
    std::tuple<Ts...> data;
    Tup() requires(sizeof...(Ts) == 0) {}
    template<class... Us> requires(sizeof...(Us) == sizeof...(Ts) && sizeof...(Us) > 0 && !(std::is_same_v<std::remove_cvref_t<Us>, Tup> || ...))
    Tup(Us &&...us) : data(std::forward<Us>(us)...) {}
};
template<size_t I, class... Ts> std::tuple_element_t<I, std::tuple<Ts...>> &get(Tup<Ts...> &t) { return std::get<I>(t.data); }
template<size_t I, class... Ts> const std::tuple_element_t<I, std::tuple<Ts...>> &get(const Tup<Ts...> &t) { return std::get<I>(t.data); }
template<size_t I, class... Ts> std::tuple_element_t<I, std::tuple<Ts...>> &&get(Tup<Ts...> &&t) { return std::get<I>(std::move(t.data)); }
template<size_t I, class... Ts> const std::tuple_element_t<I, std::tuple<Ts...>> &&get(const Tup<Ts...> &&t) { return std::get<I>(std::move(t.data)); }
} // namespace usr
template<class... Ts> struct std::tuple_size<usr::Tup<Ts...>> : std::integral_constant<size_t, sizeof...(Ts)> {};
template<size_t I, class... Ts> struct std::tuple_element<I, usr::Tup<Ts...>> : std::tuple_element<I, std::tuple<Ts...>> {};

namespace mx {
using pbt::Ctx;
using pbt::mix;
using pbt::S;
using pbt::u32;
using pbt::u64;

template<class A, class B>
inline constexpr bool same = std::is_same_v<A, B>;

// empty classes of various kinds
template<int I> struct Em { bool operator==(const Em &) const = default; };
template<int I> struct EmDerived : Em<I> { bool operator==(const EmDerived &) const = default; };
struct EmNoDefault { explicit EmNoDefault(int) {} EmNoDefault(const EmNoDefault &) = default; bool operator==(const EmNoDefault &) const { return true; } };
struct EmAmp { void operator&() const = delete; bool operator==(const EmAmp &) const { return true; } };
struct EmCall { int operator()() const { return 11; } int operator()(std::nullptr_t) const { return 12; } template<class T> int operator()(T &&, std::integral_constant<size_t, 0>) const { return 13; } bool operator==(const EmCall &) const { return true; } };
struct EmGreedy { EmGreedy() = default; EmGreedy(const EmGreedy &) = default; template<class T> requires(!std::same_as<std::remove_cvref_t<T>, EmGreedy>) EmGreedy(T &&) {} EmGreedy &operator=(const EmGreedy &) = default; bool operator==(const EmGreedy &) const { return true; } };

// non-empty things that are easily confused with something else
struct Callable { // looks like an accessor of a tuple or a lazy function
    int k = 0;
    int operator()() const { return k; }
    int operator()(std::nullptr_t) const { return k + 1; }
    template<class T, class U> int operator()(T &&, U &&) const { return k + 2; }
    bool operator==(const Callable &) const = default;
};
struct Amp { int k = 0; void operator&() const = delete; bool operator==(const Amp &) const = default; };
struct Final final { int k = 0; bool operator==(const Final &) const = default; };
struct WithEmpty { val::Empty e; int k = 0; bool operator==(const WithEmpty &) const = default; };
struct DerivedEmpty : val::Empty { int k = 0; bool operator==(const DerivedEmpty &) const = default; };
struct Init { std::vector<int> v; Init(std::initializer_list<int> l) : v(l) {} Init() = default; bool operator==(const Init &) const = default; }; // {1} is not (1)
struct Agg { int a = 0; short b = 0; bool operator==(const Agg &) const = default; };
inline int fun0(int x) { return x; }
inline int fun1(int x) { return x + 1; }
inline int fun2(int x) { return x; }
} // namespace mx

namespace val {
template<int I> struct Tab<mx::Em<I>> { static std::vector<mx::Em<I>> get() { return { {} }; } };
template<int I> struct Tab<mx::EmDerived<I>> { static std::vector<mx::EmDerived<I>> get() { return { {} }; } };
template<> struct Tab<mx::EmNoDefault> { static std::vector<mx::EmNoDefault> get() { return { mx::EmNoDefault{ 0 } }; } };
template<> struct Tab<mx::EmAmp> { static std::vector<mx::EmAmp> get() { return { {} }; } };
template<> struct Tab<mx::EmCall> { static std::vector<mx::EmCall> get() { return { {} }; } };
template<> struct Tab<mx::EmGreedy> { static std::vector<mx::EmGreedy> get() { return { {} }; } };
template<> struct Tab<mx::Callable> { static std::vector<mx::Callable> get() { return { { 0 }, { 1 }, { 2 }, { 3 } }; } };
template<> struct Tab<mx::Amp> { static std::vector<mx::Amp> get() { return { { 0 }, { 1 }, { 2 } }; } };
template<> struct Tab<mx::Final> { static std::vector<mx::Final> get() { return { { 0 }, { 1 }, { 2 } }; } };
template<> struct Tab<mx::WithEmpty> { static std::vector<mx::WithEmpty> get() { return { { {}, 0 }, { {}, 1 }, { {}, -1 } }; } };
template<> struct Tab<mx::DerivedEmpty> { static std::vector<mx::DerivedEmpty> get() { return { { {}, 0 }, { {}, 1 }, { {}, -1 } }; } };
template<> struct Tab<mx::Init> { static std::vector<mx::Init> get() { return { mx::Init{}, mx::Init{ 1 }, mx::Init{ 1, 2 }, mx::Init{ 2 } }; } };
template<> struct Tab<mx::Agg> { static std::vector<mx::Agg> get() { return { { 0, 0 }, { 1, 0 }, { 0, 1 }, { -1, -1 } }; } };
template<> struct Tab<int (*)(int)> { static std::vector<int (*)(int)> get() { return { nullptr, mx::fun0, mx::fun1, mx::fun2 }; } };
template<> struct Tab<std::less<>> { static std::vector<std::less<>> get() { return { {} }; } };
inline bool operator==(std::less<>, std::less<>) { return true; }
template<> struct Tab<std::monostate> { static std::vector<std::monostate> get() { return { {} }; } };
template<> struct Tab<std::allocator<int>> { static std::vector<std::allocator<int>> get() { return { {} }; } };
template<> struct Tab<std::true_type> { static std::vector<std::true_type> get() { return { {} }; } };
} // namespace val

namespace mx {
// Values of a type, by number. Extends val:: to types that are not comparable or
// not copyable.
template<class T>
struct El {
    static u32 D() { return val::D<T>(); }
    static T make(u32 k) { return val::make<T>(k); }
    static u32 code(const T &v) { return val::code<T>(v); }
};
template<> struct El<std::less<>> { static u32 D() { return 1; } static std::less<> make(u32) { return {}; } static u32 code(const std::less<> &) { return 0; } };
template<> struct El<std::unique_ptr<int>> {
    static u32 D() { return 9; }
    static std::unique_ptr<int> make(u32 k) { return k % D() ? std::make_unique<int>(k % D()) : nullptr; }
    static u32 code(const std::unique_ptr<int> &p) { return !p ? 0 : *p > 0 && (u32)*p < D() ? (u32)*p : val::BAD; }
};
template<> struct El<std::function<int(int)>> {
    static u32 D() { return 9; }
    static std::function<int(int)> make(u32 k) { k %= D(); if (!k) return {}; return [k](int x) { return x + (int)k; }; }
    static u32 code(const std::function<int(int)> &f) { return !f ? 0 : (u32)f(0); }
};
} // namespace mx
