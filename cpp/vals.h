// Value types used by the generated programs. Every type has a finite table of
// pairwise different values, including ones chosen to be easily confused; values
// are identified by their index (code) in that table.
#pragma once
#include "pbt.h"
#include <cmath>

namespace val {
using pbt::u32;
using pbt::u64;
constexpr u32 BAD = 0xffffffffu;

// ---- instrumented types -------------------------------------------------
struct Boom { int id; };
struct BoomStd : std::runtime_error { int id; explicit BoomStd(int i) : std::runtime_error("boom"), id(i) {} };

struct Hooks {
    int cmps[400] = {};   // comparisons per tag
    bool armed = false;   // fault injection
    u32 countdown = 0;
    int kind = 0, id = 0;
    bool fired = false;
    u32 events = 0;
    long live = 0;        // live Trk objects
    bool corrupt = false; // a Trk object was used outside its lifetime
    int paused = 0;
};
inline Hooks hk;

struct Pause { Pause() { ++hk.paused; } ~Pause() { --hk.paused; } };

inline void fault_point() {
    if (!hk.armed || hk.paused) return;
    ++hk.events;
    if (hk.fired) return;
    if (hk.countdown-- == 0) {
        hk.fired = true;
        if (hk.kind == 0) throw Boom{ hk.id };
        if (hk.kind == 1) throw BoomStd{ hk.id };
        if (hk.kind == 2) throw hk.id;
        throw std::string("boom") + std::to_string(hk.id);
    }
}

// counts comparisons
struct Spy {
    u32 k = 0;
    int tag = 0;
    bool operator==(const Spy &o) const {
        if (!hk.paused) { ++hk.cmps[tag]; }
        return k == o.k;
    }
};

// tracks its own lifetime, may throw from copying and comparing
struct Trk {
    u32 k;
    const Trk *self;
    std::unique_ptr<u32> heap;
    explicit Trk(u32 v = 0) : k(v), self(this), heap(new u32(v)) { ++hk.live; }
    Trk(const Trk &o) : k((o.chk(), fault_point(), o.k)), self(this), heap(new u32(*o.heap)) { ++hk.live; }
    Trk(Trk &&o) noexcept : k(o.k), self(this), heap(new u32(o.heap ? *o.heap : o.k)) { o.chk(); ++hk.live; }
    Trk &operator=(const Trk &o) { chk(); o.chk(); fault_point(); k = o.k; *heap = *o.heap; return *this; }
    Trk &operator=(Trk &&o) noexcept { chk(); o.chk(); k = o.k; *heap = *o.heap; return *this; }
    ~Trk() { chk(); self = nullptr; --hk.live; k = 0xdead; }
    bool operator==(const Trk &o) const { chk(); o.chk(); fault_point(); return k == o.k && *heap == *o.heap; }
    void chk() const { if (self != this || !heap || *heap != k) hk.corrupt = true; }
};

enum class Color : signed char { red, green = 5, blue = -3, other = 127 };
struct Pod { int a; double b; bool operator==(const Pod &) const = default; };
struct Big { char c[256]; bool operator==(const Big &o) const { return std::memcmp(c, o.c, sizeof c) == 0; } };
struct Chars { char c[3]; bool operator==(const Chars &) const = default; };
// has the members by which the library recognises results of lazy functions
struct Dup { int value; bool is_changed; bool operator==(const Dup &) const = default; };
// operators that must not be used on values
struct Odd {
    int v;
    bool operator==(const Odd &) const = default;
    void operator&() const = delete;
    template<class T> void operator,(T &&) const = delete;
    template<class T> friend void operator,(T &&, const Odd &) = delete;
    void operator!() const = delete;
    template<class T> void operator&&(T &&) const = delete;
    template<class T> void operator||(T &&) const = delete;
};
struct alignas(64) Wide { long x; bool operator==(const Wide &) const = default; };
struct Empty { bool operator==(const Empty &) const = default; };
struct Empty2 { bool operator==(const Empty2 &) const = default; };
struct FinalEmpty final { bool operator==(const FinalEmpty &) const = default; };
// cannot be compared: may be constants, but not results
struct NoCmp { int v = 0; };
struct DelCmp { std::string s; int v = 0; bool operator==(const DelCmp &) const = delete; };
struct NeedsArg { int v = 0; int operator()(int x) const { return x + v; } bool operator==(const NeedsArg &) const = default; }; // a constant, not a plain function
inline bool equal(const auto &a, const auto &b) { return a == b; }
inline bool equal(const NoCmp &a, const NoCmp &b) { return a.v == b.v; }
inline bool equal(const DelCmp &a, const DelCmp &b) { return a.v == b.v && a.s == b.s; }
struct NoDefault { int v; explicit NoDefault(int x) : v(x) {} bool operator==(const NoDefault &) const = default; };
// not an aggregate, converts from anything: catches accidental conversions
struct Greedy {
    int v = -1;
    Greedy() = default;
    Greedy(const Greedy &) = default;
    Greedy &operator=(const Greedy &) = default;
    template<class T> requires(!std::same_as<std::remove_cvref_t<T>, Greedy>) Greedy(T &&) : v(-2) {}
    static Greedy of(int x) { Greedy g; g.v = x; return g; }
    bool operator==(const Greedy &o) const { return v == o.v; }
};

template<class T>
struct Tab;
template<class T>
const std::vector<T> &table() { static const std::vector<T> t = [] { Pause p; return Tab<T>::get(); }(); return t; }

template<class T>
u32 code_of(const T &v) {
    Pause p;
    const auto &t = table<T>();
    for (u32 i = 0; i < t.size(); ++i) if (equal(t[i], v)) return i;
    return BAD;
}
template<class T>
u32 D() { return (u32)table<T>().size(); }

template<class T>
T make(u32 k) { Pause p; return table<T>()[k % D<T>()]; }

// extra integers harvested from the sources under test
inline const std::vector<long long> &dictionary() {
    static const std::vector<long long> d = {
#ifdef PBT_DICT
        PBT_DICT
#endif
    };
    return d;
}

template<class T> requires std::is_integral_v<T>
std::vector<T> ints() {
    using L = std::numeric_limits<T>;
    std::vector<T> r;
    auto add = [&](auto v) {
        T t = (T)v;
        for (auto x : r) if (x == t) return;
        r.push_back(t);
    };
    add(0); add(1); add(2); add(L::max()); add(L::min()); add(-1); add(255); add(256); add(3); add(127); add(128); add(65536); add(65535); add(-128);
    add(L::max() - 1); add(L::min() + 1); add(1ll << 31); add(1ll << 32); add((1ll << 32) + 1); add(0x7fffffff); add(10); add(42); add(100); add(-2); add(1000);
    for (auto d : dictionary()) if (r.size() < 60) add(d);
    pbt::u64 s = 7;
    for (int i = 0; i < 16 && r.size() < 70; ++i) { s = pbt::mix(s); add(s >> 3); }
    for (int i = 4; i < 24; ++i) add(i);
    return r;
}
template<class T> requires std::is_integral_v<T>
struct Tab<T> { static std::vector<T> get() { return ints<T>(); } };
template<> struct Tab<bool> { static std::vector<bool> get() { return { false, true }; } };
template<class T> requires std::is_floating_point_v<T>
struct Tab<T> {
    static std::vector<T> get() {
        using L = std::numeric_limits<T>;
        std::vector<T> r{ 0, 1, -1, T(0.5), 2, 100, L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::epsilon(), T(1) + L::epsilon(), T(1) - L::epsilon(), T(1e-9), T(2e-9), T(0.1), T(0.25), T(0.3), T(16777216), T(1e6) };
        std::vector<T> u;
        for (auto x : r) if (std::find(u.begin(), u.end(), x) == u.end()) u.push_back(x);
        return u;
    }
};
template<> struct Tab<std::string> {
    static std::vector<std::string> get() {
        std::string l(40, 'x');
        return { "", "a", "b", "ab", "aa", std::string(1, '\0'), std::string(2, '\0'), std::string("a\0b", 3), std::string("a\0c", 3), "0", "1",
            "0123456789abcde", "0123456789abcdef", "0123456789abcdeg", l, l + "y", l + "z", "y" + l, std::string(1000, 'q'), std::string(1001, 'q'), "A", " a", "a " };
    }
};
template<> struct Tab<const char *> {
    static std::vector<const char *> get() { static char a[] = "a", b[] = "a", d[] = ""; return { nullptr, a, b, d }; }
};
template<> struct Tab<int *> { static std::vector<int *> get() { static int a[3] = { 0, 0, 1 }; return { nullptr, a, a + 1, a + 2 }; } };
template<> struct Tab<std::nullptr_t> { static std::vector<std::nullptr_t> get() { return { nullptr }; } };
template<> struct Tab<std::reference_wrapper<int>> { static std::vector<std::reference_wrapper<int>> get() { static int a[3] = { 0, 1, 2 }; return { a[0], a[1], a[2] }; } };
template<> struct Tab<std::string_view> { static std::vector<std::string_view> get() { static const char b[] = "abcab"; return { "", { b, 1 }, { b, 2 }, { b, 5 }, { b + 1, 1 }, std::string_view("a\0b", 3), std::string_view("a\0c", 3) }; } };
template<> struct Tab<std::byte> { static std::vector<std::byte> get() { return { std::byte{ 0 }, std::byte{ 1 }, std::byte{ 255 } }; } };
template<> struct Tab<Color> { static std::vector<Color> get() { return { Color::red, Color::green, Color::blue, Color::other }; } };
template<> struct Tab<Pod> { static std::vector<Pod> get() { return { { 0, 0 }, { 0, 1 }, { 1, 0 }, { 1, 1 }, { INT_MAX, -1e300 }, { 0, 1e-300 } }; } };
template<> struct Tab<Big> {
    static std::vector<Big> get() {
        std::vector<Big> r(5, Big{});
        r[1].c[0] = 1; r[2].c[255] = 1; r[3].c[128] = 1; r[4].c[0] = r[4].c[255] = 1;
        return r;
    }
};
template<> struct Tab<Chars> { static std::vector<Chars> get() { return { { { 0, 0, 0 } }, { { 1, 0, 0 } }, { { 0, 0, 1 } } }; } };
template<> struct Tab<Dup> { static std::vector<Dup> get() { return { { 0, false }, { 0, true }, { 1, false }, { 1, true } }; } };
template<> struct Tab<Odd> { static std::vector<Odd> get() { return { { 0 }, { 1 }, { 2 } }; } };
template<> struct Tab<Wide> { static std::vector<Wide> get() { return { { 0 }, { 1 }, { -1 }, { 1l << 40 } }; } };
template<> struct Tab<Empty> { static std::vector<Empty> get() { return { {} }; } };
template<> struct Tab<Empty2> { static std::vector<Empty2> get() { return { {} }; } };
template<> struct Tab<FinalEmpty> { static std::vector<FinalEmpty> get() { return { {} }; } };
template<> struct Tab<NoDefault> { static std::vector<NoDefault> get() { return { NoDefault{ 0 }, NoDefault{ 1 }, NoDefault{ 7 } }; } };
template<> struct Tab<NoCmp> { static std::vector<NoCmp> get() { return { { 0 }, { 1 }, { -1 }, { 1 << 20 } }; } };
template<> struct Tab<DelCmp> { static std::vector<DelCmp> get() { return { { "", 0 }, { "a", 0 }, { "", 1 }, { std::string(40, 'x'), 1 } }; } };
template<> struct Tab<NeedsArg> { static std::vector<NeedsArg> get() { return { { 0 }, { 1 }, { -1 } }; } };
template<> struct Tab<Greedy> { static std::vector<Greedy> get() { return { Greedy::of(0), Greedy::of(1), Greedy::of(9) }; } };
template<> struct Tab<Spy> { static std::vector<Spy> get() { std::vector<Spy> r; for (u32 i = 0; i < 12; ++i) r.push_back({ i, 0 }); return r; } };
template<> struct Tab<Trk> { static std::vector<Trk> get() { std::vector<Trk> r; r.reserve(8); for (u32 i = 0; i < 8; ++i) r.emplace_back(i); return r; } };

// a few representative codes of a component type
template<class T>
std::vector<u32> few(u32 n) {
    std::vector<u32> r;
    for (u32 i = 0; i < n && i < D<T>(); ++i) r.push_back(i);
    if (D<T>() > n) r.push_back(D<T>() - 1);
    return r;
}
template<class A, class B> struct Tab<std::pair<A, B>> {
    static std::vector<std::pair<A, B>> get() {
        std::vector<std::pair<A, B>> r;
        for (auto a : few<A>(4)) for (auto b : few<B>(4)) r.emplace_back(make<A>(a), make<B>(b));
        return r;
    }
};
template<class... Ts> struct Tab<std::tuple<Ts...>> {
    static std::vector<std::tuple<Ts...>> get() {
        std::vector<std::tuple<Ts...>> r;
        for (u32 i = 0; i < 40; ++i) {
            u32 x = i;
            auto next = [&](u32 d) { u32 m = std::min(d, 3u); u32 v = x % m; x /= m; return v; };
            std::tuple<Ts...> t{ make<Ts>(next(D<Ts>()))... };
            bool dup = false;
            for (auto &o : r) if (o == t) dup = true;
            if (!dup) r.push_back(t);
        }
        return r;
    }
};
template<class T> struct Tab<std::optional<T>> {
    static std::vector<std::optional<T>> get() {
        std::vector<std::optional<T>> r{ std::nullopt };
        for (auto k : few<T>(6)) r.push_back(make<T>(k));
        return r;
    }
};
template<class T> struct Tab<std::vector<T>> {
    static std::vector<std::vector<T>> get() {
        std::vector<std::vector<T>> r{ {} };
        for (auto a : few<T>(3)) r.push_back(std::vector<T>(1, make<T>(a)));
        for (auto a : few<T>(3)) for (auto b : few<T>(2)) r.push_back(std::vector<T>{ make<T>(a), make<T>(b) });
        for (u32 i = 0; i < 2; ++i) { std::vector<T> v(50, make<T>(0)); v.back() = make<T>(i); r.push_back(v); }
        std::vector<std::vector<T>> u;
        for (auto &x : r) if (std::find(u.begin(), u.end(), x) == u.end()) u.push_back(x);
        return u;
    }
};
template<class T, size_t N> struct Tab<std::array<T, N>> {
    static std::vector<std::array<T, N>> get() {
        std::array<T, N> z;
        z.fill(make<T>(0));
        std::vector<std::array<T, N>> r{ z };
        for (size_t i = 0; i < N; ++i) { auto y = z; y[i] = make<T>(1); if (!(y == z)) r.push_back(y); }
        return r;
    }
};
template<class... Ts> struct Tab<std::variant<Ts...>> {
    static std::vector<std::variant<Ts...>> get() {
        std::vector<std::variant<Ts...>> r;
        auto f = [&]<size_t I>(std::integral_constant<size_t, I>) {
            using T = std::variant_alternative_t<I, std::variant<Ts...>>;
            for (auto k : few<T>(4)) r.emplace_back(std::in_place_index<I>, make<T>(k));
        };
        [&]<size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<size_t, I>{}), ...); }(std::index_sequence_for<Ts...>{});
        return r;
    }
};
template<class A, class B> struct Tab<std::map<A, B>> {
    static std::vector<std::map<A, B>> get() {
        std::vector<std::map<A, B>> r{ {} };
        for (auto a : few<A>(3)) for (auto b : few<B>(2)) r.push_back({ { make<A>(a), make<B>(b) } });
        return r;
    }
};
template<class T> struct Tab<std::shared_ptr<T>> {
    static std::vector<std::shared_ptr<T>> get() { return { nullptr, std::make_shared<T>(make<T>(0)), std::make_shared<T>(make<T>(0)), std::make_shared<T>(make<T>(1)) }; }
};

// code of anything a function may receive; types without table (such as the
// placeholder that stands for a void dependency) have one value
template<class T>
concept tabled = requires { Tab<T>::get(); };
template<class T>
u32 code(const T &v) {
    if constexpr (tabled<T>) {
        if constexpr (std::same_as<T, Trk>) v.chk();
        return code_of<T>(v);
    } else {
        return 0;
    }
}

// instantiated once, in vals.cpp
#define VAL_INST(...) \
    VAL_EXTERN template const std::vector<__VA_ARGS__> &table<__VA_ARGS__>(); \
    VAL_EXTERN template u32 code_of<__VA_ARGS__>(std::type_identity_t<__VA_ARGS__> const &); \
    VAL_EXTERN template u32 D<__VA_ARGS__>(); \
    VAL_EXTERN template __VA_ARGS__ make<__VA_ARGS__>(u32);
#ifndef PBT_SUPPORT
#define VAL_EXTERN extern
#else
#define VAL_EXTERN
#endif
#if !defined(PBT_SUPPORT) || defined(PBT_VALS)
VAL_INST(bool)
VAL_INST(char)
VAL_INST(signed char)
VAL_INST(short)
VAL_INST(int)
VAL_INST(unsigned)
VAL_INST(long)
VAL_INST(unsigned long long)
VAL_INST(float)
VAL_INST(double)
VAL_INST(std::reference_wrapper<int>)
VAL_INST(std::string_view)
VAL_INST(std::byte)
VAL_INST(std::nullptr_t)
VAL_INST(long double)
VAL_INST(Color)
VAL_INST(int *)
VAL_INST(const char *)
VAL_INST(std::string)
VAL_INST(std::vector<int>)
VAL_INST(std::vector<std::string>)
VAL_INST(std::pair<int, std::string>)
VAL_INST(std::tuple<int, double, char>)
VAL_INST(std::tuple<std::string>)
VAL_INST(std::pair<int, int>)
VAL_INST(std::tuple<>)
VAL_INST(std::array<int, 3>)
VAL_INST(std::optional<int>)
VAL_INST(std::optional<std::string>)
VAL_INST(std::optional<bool>)
VAL_INST(std::variant<int, std::string>)
VAL_INST(std::map<int, std::string>)
VAL_INST(std::shared_ptr<int>)
VAL_INST(std::optional<std::optional<int>>)
VAL_INST(std::tuple<std::pair<int, int>>)
VAL_INST(Pod)
VAL_INST(Big)
VAL_INST(Wide)
VAL_INST(Dup)
VAL_INST(Odd)
VAL_INST(Empty)
VAL_INST(Empty2)
VAL_INST(FinalEmpty)
VAL_INST(NoDefault)
VAL_INST(Greedy)
VAL_INST(NoCmp)
VAL_INST(DelCmp)
VAL_INST(NeedsArg)
VAL_INST(Trk)
VAL_INST(Spy)
#endif
} // namespace val
