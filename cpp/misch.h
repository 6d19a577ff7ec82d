// Harness for apply, to_tuple, overload, recursive, pack and tuple algorithms,
// regular_void, uncapture, forwarding helpers.
#pragma once
#include "bindh.h"
#include <pigro/apply.h>
#include <pigro/to_tuple.h>
#include <pigro/overload.h>
#include <pigro/recursive.h>
#include <pigro/pack_algorithms.h>
#include <pigro/partition.h>
#include <pigro/tuple_algorithms.h>
#include <pigro/regular_void.h>
#include <pigro/uncapture.h>
#include <pigro/forward_like.h>
#include <pigro/fwd_capture.h>
#include <pigro/utils.h>

namespace bd { struct Explicit2 { bool b = false; explicit Explicit2(bool x) : b(x) {} explicit operator bool() const { return b; } }; }
namespace mx { struct Abstract { virtual void f() = 0; }; struct Abstract2 { virtual void f() = 0; Abstract2(const Abstract2 &) = delete; Abstract2() = default; }; }

namespace ms {
using namespace mx;
using bd::L;

// ---- C16
template<class F, class T>
concept applicable = requires(F &&f, T &&t) { pigro::apply(std::forward<F>(f), std::forward<T>(t)); };
template<class F, class T>
void instantiate_apply(F &&f, T &&t) { (void)pigro::apply(std::forward<F>(f), std::forward<T>(t)); }
template<class F, class T, class... A>
void apply_accepts(Ctx &c, const char *txt, L<A...>) {
    constexpr bool ok = std::is_invocable_v<F, A...>;
    c.item(ok);
    c.sayf([&] { return std::string(ok ? "accepted: " : "rejected: ") + txt; });
    c.checkf(applicable<F, T> == ok, [&] { return std::string("apply ") + (ok ? "rejects" : "accepts") + " a function that " + (ok ? "accepts" : "does not accept") + " the elements: " + txt; });
    if constexpr (ok && applicable<F, T>) {
        c.check(same<decltype(pigro::apply(std::declval<F>(), std::declval<T>())), std::invoke_result_t<F, A...>>, "apply has another result type than the function");
        (void)&instantiate_apply<F, T>;
    }
}

// ---- C17: O is the overload set, R the reference class
template<class O, class R, class... A>
void resolves(Ctx &c, const char *txt, L<A...>) {
    auto one = [&]<class OO, class RR>(const char *how) {
        constexpr bool ok = std::is_invocable_v<RR, A...>;
        c.item(ok);
        c.sayf([&] { return std::string(how) + (ok ? " selects for " : " rejects ") + txt; });
        c.checkf(std::is_invocable_v<OO, A...> == ok && bd::callable<OO, A...> == ok, [&] { return std::string("the overload set (") + how + ") " + (ok ? "rejects " : "accepts ") + txt + ", unlike one class with the same call operators"; });
        if constexpr (ok && std::is_invocable_v<OO, A...>)
            c.checkf(same<std::invoke_result_t<OO, A...>, std::invoke_result_t<RR, A...>>, [&] { return std::string("the overload set (") + how + ") selects another function for " + txt + ": " + bd::tname<std::invoke_result_t<OO, A...>>() + " instead of " + bd::tname<std::invoke_result_t<RR, A...>>(); });
    };
    one.template operator()<O &, R &>("lvalue");
    one.template operator()<const O &, const R &>("const lvalue");
    one.template operator()<O, R>("rvalue");
    one.template operator()<const O, const R>("const rvalue");
}

// arguments that are expressions: null pointer constants, braced lists, bit-fields, ...
template<class R, class O, class P, class F>
void resolves_expr(Ctx &c, const char *txt, F) {
    auto one = [&]<class OO, class RR>(const char *how) {
        constexpr bool ok = std::is_invocable_v<F, RR>;
        c.item(ok);
        c.sayf([&] { return std::string(how) + (ok ? " selects for " : " rejects ") + txt; });
        c.checkf(std::is_invocable_v<F, OO> == ok, [&] { return std::string("the overload set (") + how + ") " + (ok ? "rejects " : "accepts ") + txt + ", unlike one class with the same call operators"; });
        if constexpr (ok && std::is_invocable_v<F, OO>)
            c.checkf(same<std::invoke_result_t<F, OO>, std::invoke_result_t<F, RR>>, [&] { return std::string("the overload set (") + how + ") selects another function for " + txt; });
    };
    one.template operator()<O &, R &>("lvalue");
    one.template operator()<const O &, const R &>("const lvalue");
    one.template operator()<O, R>("rvalue");
    one.template operator()<P &, R &>("lvalue");
}

// ---- C18
template<class A, class... Alt> struct first_accepted { using type = void; };
template<class... A, class F, class R, class... Alt> struct first_accepted<L<A...>, L<F, R>, Alt...> : first_accepted<L<A...>, Alt...> {};
template<class... A, class F, class R, class... Alt> requires(std::is_invocable_v<F, R, A...>) struct first_accepted<L<A...>, L<F, R>, Alt...> { using type = L<std::invoke_result_t<F, R, A...>>; };
template<class F, class... A>
void recursive_accepts(Ctx &c, const char *txt, L<A...>) {
    using R = pigro::recursive<F>;
    using N = void;
    // overload resolution among the four call operators: the first alternative that is accepted
    auto one = [&]<class RR, class... Alt>(const char *how, L<Alt...>) {
        using First = typename first_accepted<L<A...>, Alt...>::type;
        constexpr bool ok = !same<First, N>;
        c.item(ok);
        c.sayf([&] { return std::string(how) + (ok ? " accepts " : " rejects ") + txt; });
        c.checkf(std::is_invocable_v<RR, A...> == ok && bd::callable<RR, A...> == ok, [&] { return std::string("the recursive function (") + how + ") " + (ok ? "rejects " : "accepts ") + txt + ", unlike the function"; });
        if constexpr (ok && std::is_invocable_v<RR, A...>)
            c.checkf(same<L<std::invoke_result_t<RR, A...>>, First>, [&] { return std::string("the recursive function (") + how + ") has another result type for " + txt; });
    };
    one.template operator()<R &>("lvalue", L<L<F &, R &>, L<const F &, const R &>>{});
    one.template operator()<const R &>("const lvalue", L<L<const F &, const R &>>{});
    one.template operator()<R &&>("rvalue", L<L<F &&, R &&>, L<const F &&, const R &&>, L<const F &, const R &>>{});
    one.template operator()<const R &&>("const rvalue", L<L<const F &&, const R &&>, L<const F &, const R &>>{});
}
template<class F, class... A> struct Alt {};
template<class...> struct first_accepted2 { using type = void; };
template<class F, class... A, class... R> struct first_accepted2<Alt<F, A...>, R...> : first_accepted2<R...> {};
template<class F, class... A, class... R> requires(std::is_invocable_v<F, A...>) struct first_accepted2<Alt<F, A...>, R...> { using type = L<std::invoke_result_t<F, A...>>; };
struct SelfRec { // what the function saw
    const void *self_type = nullptr;
    const void *self = nullptr;
    std::string self_name;
};
inline SelfRec seen;
template<class S, class... A>
u64 record_self(S &&self, A &&...a) {
    seen = { &bd::tid<S &&>, (const void *)std::addressof(self), bd::tname<S &&>() };
    return bd::record(std::forward<A>(a)...);
}
template<int R> struct Rc { template<class S, class... A> bd::ret_t<R> operator()(S &&s, A &&...a) const { return bd::ret<R>(record_self(std::forward<S>(s), std::forward<A>(a)...)); } };
template<int R> struct RcState { std::string st = "kept"; int n = 0; template<class S, class... A> bd::ret_t<R> operator()(S &&s, A &&...a) const { if (st != "kept") std::abort(); return bd::ret<R>(record_self(std::forward<S>(s), std::forward<A>(a)...)); } };
template<int R> struct RcQual { // all four
    template<class S, class... A> bd::ret_t<R> operator()(S &&s, A &&...a) & { static_assert(same<S &&, pigro::recursive<RcQual> &>); return bd::ret<R>(record_self(std::forward<S>(s), std::forward<A>(a)...)); }
    template<class S, class... A> bd::ret_t<R> operator()(S &&s, A &&...a) const & { static_assert(same<S &&, const pigro::recursive<RcQual> &>); return bd::ret<R>(record_self(std::forward<S>(s), std::forward<A>(a)...)); }
    template<class S, class... A> bd::ret_t<R> operator()(S &&s, A &&...a) && { static_assert(same<S &&, pigro::recursive<RcQual> &&>); return bd::ret<R>(record_self(std::forward<S>(s), std::forward<A>(a)...)); }
    template<class S, class... A> bd::ret_t<R> operator()(S &&s, A &&...a) const && { static_assert(same<S &&, const pigro::recursive<RcQual> &&>); return bd::ret<R>(record_self(std::forward<S>(s), std::forward<A>(a)...)); }
};

// ---- C19
struct Count {
    int n = 0, copies = 0;
    Count() = default;
    Count(const Count &o) : n(o.n), copies(o.copies + 1) {}
    int operator()(auto &&...) { return ++n; }
    int operator()(auto &&...) const { return -1; }
};

// ---- C24
template<class Like, class X>
concept forwardable = requires(X &&x) { pigro::forward_like<Like>(std::forward<X>(x)); };

template<class T> struct Holder { T x = El<T>::make(0); };
template<> struct Holder<bd::Pin> { bd::Pin x; };
template<class T, size_t n> struct Holder<T[n]> { T x[n] = {}; };
template<> struct Holder<Abstract2> { struct D : Abstract2 { void f() override {} } d; Abstract2 &x = d; };
template<class T> const void *address(T &&x) { return const_cast<const void *>(static_cast<const volatile void *>(std::addressof(x))); }
template<class... T> struct Box {};

// ---- C22
struct One { auto operator<=>(const One &) const = default; }; // an ordinary type with one value
inline u64 last;
template<class R, class F> struct To { // f with another kind of result
    F f;
    template<class... A> R operator()(A &&...a) {
        last = f(std::forward<A>(a)...);
        if constexpr (same<R, u64>) return last;
        else if constexpr (!std::is_void_v<R>) return R{};
    }
};
template<class W> struct Back { // with the original result
    W w;
    template<class... A> u64 operator()(A &&...a) { last = 0; w(std::forward<A>(a)...); return last; }
};
template<class F> struct AsRegularVoid {
    F f;
    template<class... A> requires std::is_invocable_v<F &, A...>
    pigro::regular_void operator()(A &&...a) { f(std::forward<A>(a)...); return {}; }
};
template<class F> AsRegularVoid(F) -> AsRegularVoid<F>;
template<size_t N>
void optional_history(Ctx &c, u64 len) {
    using V = pigro::regular_void;
    using O = std::optional<V>;
    using M = std::optional<One>;
    constexpr V v{};
    static_assert(same<decltype(v <=> v), std::strong_ordering>);
    c.check(v == v && !(v != v) && !(v < v) && v <= v && !(v > v) && v >= v && (v <=> v) == std::strong_ordering::equal, "regular_void values are not all equal");
    c.check(sizeof(O) == 1, "std::optional<regular_void> takes more than one byte");
    CK(std::is_empty_v<V>); CK(std::is_copy_constructible_v<O> && std::is_copy_assignable_v<O> && std::is_default_constructible_v<O> && std::is_convertible_v<V, O>);
    O o[N]; M m[N];
    auto cat = [&](size_t i) { return "slot " + S(i); };
    u64 effects = 0;
    const u64 n = c.range(1, len);
    for (u64 k = 0; k < n && !c.failed; ++k) {
        const size_t i = c.draw(N), j = c.draw(N);
        switch (c.draw(9)) {
        case 0: { auto &r = (o[i] = v); m[i] = One{}; CK(&r == &o[i]); c.sayf([&] { return cat(i) + " = value"; }); break; }
        case 1: o[i] = o[j]; m[i] = m[j]; c.sayf([&] { return cat(i) + " = " + cat(j); }); break;
        case 2: o[i] = std::move(o[j]); m[i] = std::move(m[j]); c.sayf([&] { return cat(i) + " = move of " + cat(j); }); break;
        case 3: { O x; M y; o[i] = x; m[i] = y; c.sayf([&] { return cat(i) + " = empty"; }); break; }
        case 4: { O x{ v }; o[i] = x; m[i] = One{}; c.sayf([&] { return cat(i) + " = engaged"; }); break; }
        case 5: { O x{ o[j] }; o[j] = O(std::move(x)); c.sayf([&] { return cat(j) + " copied and moved back"; }); break; }
        case 6: { O x = o[i]; o[i] = o[j]; o[j] = x; std::swap(m[i], m[j]); } c.sayf([&] { return "swap " + cat(i) + " and " + cat(j); }); break;
        case 7: { const O *p = new O(o[j]); o[i] = *p; m[i] = m[j]; delete p; break; }
        case 8: { auto f = [](O a, O b) { return std::pair{ a, b }; }; auto [a, b] = f(o[i], v); c.check(bool(a) == bool(m[i]) && bool(b), "an optional passed by value differs"); break; }
        }
        for (size_t x = 0; x < N; ++x) {
            c.checkf(bool(std::as_const(o[x])) == bool(m[x]), [&] { return cat(x) + (m[x] ? " is empty" : " is engaged"); });
            if (m[x]) c.check(*std::as_const(o[x]) == v && *o[x] == *o[x], "the value differs");
            effects += bool(m[x]);
            for (size_t y = 0; y < N; ++y) {
                c.checkf((std::as_const(o[x]) == std::as_const(o[y])) == (m[x] == m[y]) && (o[x] == o[y]) == (m[x] == m[y]), [&] { return cat(x) + (m[x] == m[y] ? " does not equal " : " equals ") + cat(y); });
                c.checkf((std::as_const(o[x]) != std::as_const(o[y])) == (m[x] != m[y]) && (o[x] != o[y]) == (m[x] != m[y]), [&] { return cat(x) + (m[x] != m[y] ? " is not unequal to " : " is unequal to ") + cat(y); });
            }
            c.check((o[x] == O(v)) == bool(m[x]) && (o[x] == O()) == !m[x] && (o[x] != O(v)) == !m[x], "a comparison with an engaged or empty optional is wrong");
        }
    }
    c.nontrivial = effects && effects < n * N;
}

// ---- C23: overload resolution between the non-const and the const call operator
template<class B, class F, class... A, class... AN, class... AC>
void uncapture_accepts(Ctx &c, const char *txt, L<A...>, L<AN...>, L<AC...>) {
    auto one = [&]<class BB>(const char *how, auto... alt) {
        using First = typename first_accepted2<decltype(alt)...>::type;
        constexpr bool ok = !same<First, void>;
        c.item(ok);
        c.sayf([&] { return std::string(how) + (ok ? " accepts " : " rejects ") + txt; });
        c.checkf(std::is_invocable_v<BB, A...> == ok && bd::callable<BB, A...> == ok, [&] { return std::string("the function with uncaptured values (") + how + ") " + (ok ? "rejects " : "accepts ") + txt + ", unlike the function itself followed by the values"; });
        if constexpr (ok && std::is_invocable_v<BB, A...>) {
            c.check(same<L<std::invoke_result_t<BB, A...>>, First>, "the result type differs from that of the direct call");
            (void)&bd::instantiate<std::remove_reference_t<BB>, A...>;
        }
    };
    using N = Alt<F &, AN...>;
    using K = Alt<const F &, AC...>;
    one.template operator()<B &>("non-const", N{}, K{});
    if constexpr (!same<B, F>) one.template operator()<B>("rvalue", N{}, K{}); // without values, it is the function itself
    one.template operator()<const B &>("const", K{});
}
} // namespace ms
