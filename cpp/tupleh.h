// Harness for compressed tuples: histories of writes, copies, moves, assignments
// next to a model made of numbered cells.
#pragma once
#include "miscbase.h"
#include <pigro/compressed_tuple.h>

namespace mx {
template<class... Ts>
struct El<pigro::compressed_tuple<Ts...>> {
    using T = pigro::compressed_tuple<Ts...>;
    template<class U> static u32 d() { return std::min<u32>(El<U>::D(), 5); }
    static u32 D() { u32 r = 1; ((r = r < 4000 ? r * d<Ts>() : r), ...); return r; }
    static T make(u32 k) {
        k %= D();
        u32 x[sizeof...(Ts) + 1], n = 0;
        ((x[n] = k % d<Ts>(), k /= d<Ts>(), ++n), ...);
        return [&]<size_t... I>(std::index_sequence<I...>) { return T(El<Ts>::make(x[I])...); }(std::index_sequence_for<Ts...>{});
    }
    static u32 code(const T &t) {
        u32 r = 0, m = 1;
        bool bad = false;
        [&]<size_t... I>(std::index_sequence<I...>) {
            ([&] {
                u32 v = El<Ts>::code(pigro::get<I>(t));
                if (v >= d<Ts>()) bad = true;
                r += v * m;
                m *= d<Ts>();
            }(), ...);
        }(std::index_sequence_for<Ts...>{});
        return bad ? val::BAD : r;
    }
};
} // namespace mx

namespace tp {
using namespace mx;
template<int I> struct F { template<class... A> int operator()(A &&...) const { return I; } };
template<class T> struct FS { T t; template<class... A> int operator()(A &&...) const { return 1; } };
using L = decltype([](auto &&...) { return 1; });
template<size_t I, class T>
concept has_get = requires(T &&t) { pigro::get<I>(std::forward<T>(t)); };

// Map: per element the external variable it refers to, or -1; Const: element is const
template<class CT, class Exts, class Make, class Map>
struct Hist;

template<class CT, class... Xs, class Make, int... Map>
struct Hist<CT, std::tuple<Xs...>, Make, std::integer_sequence<int, Map...>> {
    static constexpr size_t N = sizeof...(Map);
    static constexpr std::array<int, N> map{ Map... };
    template<size_t I> using Decl = std::tuple_element_t<I, CT>;
    template<size_t I> using V = std::remove_cvref_t<Decl<I>>;
    template<size_t I> static constexpr bool is_ref = map[I] >= 0;
    template<size_t I> static constexpr bool writable = !std::is_empty_v<V<I>> && !std::is_const_v<std::remove_reference_t<Decl<I>>>;
    static constexpr bool all_values = ((Map < 0) && ...);
    static constexpr bool copyable = std::is_copy_constructible_v<CT>;

    Ctx &c;
    std::tuple<Xs...> ext;
    std::array<u32, sizeof...(Xs)> em{};
    struct Slot { std::unique_ptr<CT> t; std::array<u32, N> m{}; int id = 0; };
    std::vector<Slot> slots;
    int ids = 0;
    u32 writes = 0, copies = 0;

    explicit Hist(Ctx &c) : c(c), ext(El<Xs>::make(0)...) {}

    static void at(size_t i, auto &&f) {
        [&]<size_t... I>(std::index_sequence<I...>) { ((I == i ? (f(std::integral_constant<size_t, I>{}), 0) : 0), ...); }(std::make_index_sequence<N>{});
    }
    static void xat(size_t i, auto &&f) {
        [&]<size_t... I>(std::index_sequence<I...>) { ((I == i ? (f(std::integral_constant<size_t, I>{}), 0) : 0), ...); }(std::make_index_sequence<sizeof...(Xs)>{});
    }
    static void each(auto &&f) {
        [&]<size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<size_t, I>{}), ...); }(std::make_index_sequence<N>{});
    }

    u32 want(const Slot &s, size_t i) const { return map[i] >= 0 ? em[map[i]] : s.m[i]; }

    void verify(const char *after) {
        for (auto &s : slots) {
            each([&]<size_t I>(std::integral_constant<size_t, I>) {
                if (c.failed) return;
                const auto w = want(s, I);
                const auto a = El<V<I>>::code(pigro::get<I>(*s.t));
                c.checkf(a == w, [&] { return "after " + std::string(after) + ", element " + S(I) + " of tuple #" + S(s.id) + " is value " + S(a) + " instead of " + S(w); });
                const auto b = El<V<I>>::code(pigro::get<I>(std::as_const(*s.t)));
                c.checkf(b == w, [&] { return "after " + std::string(after) + ", element " + S(I) + " of const tuple #" + S(s.id) + " is value " + S(b) + " instead of " + S(w); });
                if constexpr (is_ref<I>) {
                    if constexpr (!std::is_empty_v<V<I>>) {
                        c.check((const void *)std::addressof(pigro::get<I>(*s.t)) == (const void *)std::addressof(std::get<map[I]>(ext)), "an element of reference type does not refer to the original object");
                        c.check((const void *)std::addressof(pigro::get<I>(std::as_const(*s.t))) == (const void *)std::addressof(std::get<map[I]>(ext)), "an element of reference type of a const tuple does not refer to the original object");
                    }
                }
            });
        }
        for (size_t j = 0; j < sizeof...(Xs); ++j)
            xat(j, [&]<size_t J>(std::integral_constant<size_t, J>) {
                const auto a = El<std::tuple_element_t<J, std::tuple<Xs...>>>::code(std::get<J>(ext));
                c.checkf(a == em[J], [&] { return "after " + std::string(after) + ", the variable x" + S(J) + " has value " + S(a) + " instead of " + S(em[J]); });
            });
    }

    void create() {
        Slot s;
        s.id = ids++;
        each([&]<size_t I>(std::integral_constant<size_t, I>) { s.m[I] = (u32)c.draw(El<V<I>>::D()); });
        const u32 form = (u32)c.draw(Make::forms);
        bool def = false;
        s.t = Make::make(form, s.m, ext, def);
        if (def) each([&]<size_t I>(std::integral_constant<size_t, I>) { if constexpr (!is_ref<I>) if constexpr (std::is_default_constructible_v<V<I>>) s.m[I] = El<V<I>>::code(V<I>{}); });
        c.sayf([&] {
            std::string r = "tuple #" + S(s.id) + " = construct(form " + S(form) + (def ? ", default" : "");
            for (size_t i = 0; i < N; ++i) r += ", " + (map[i] >= 0 ? "x" + S(map[i]) : S(s.m[i]));
            return r + ")";
        });
        slots.push_back(std::move(s));
        verify("construction");
    }

    static CT by_value(CT t) { return t; }

    void op() {
        const size_t s = slots.empty() ? 0 : (size_t)c.draw(slots.size());
        const u32 what = (u32)c.draw(14);
        if (slots.empty() || (what == 0 && slots.size() < 4)) return create();
        auto &sl = slots[s];
        if (what <= 4 && N) { // write an element
            at((size_t)c.draw(N), [&]<size_t I>(std::integral_constant<size_t, I>) {
                if constexpr (writable<I>) {
                    const u32 k = (u32)c.draw(El<V<I>>::D());
                    const bool rv = c.chance(1, 4);
                    c.sayf([&] { return "write value " + S(k) + " to element " + S(I) + " of #" + S(sl.id) + (rv ? " through get of the rvalue" : ""); });
                    if (rv) {
                        auto &&r = pigro::get<I>(std::move(*sl.t));
                        const_cast<V<I> &>(r) = El<V<I>>::make(k);
                    } else {
                        auto &&r = pigro::get<I>(*sl.t);
                        r = El<V<I>>::make(k);
                    }
                    (is_ref<I> ? em[is_ref<I> ? map[I] : 0] : sl.m[I]) = k;
                    ++writes;
                }
            });
            return verify("writing an element");
        }
        if (what <= 6) {
            if (sizeof...(Xs)) xat((size_t)c.draw(sizeof...(Xs)), [&]<size_t J>(std::integral_constant<size_t, J>) {
                using X = std::tuple_element_t<J, std::tuple<Xs...>>;
                const u32 k = (u32)c.draw(El<X>::D());
                c.sayf([&] { return "write value " + S(k) + " to variable x" + S(J); });
                std::get<J>(ext) = El<X>::make(k);
                em[J] = k;
                ++writes;
            });
            return verify("writing a referred variable");
        }
        if (what == 7) {
            c.sayf([&] { return "destroy #" + S(sl.id); });
            slots.erase(slots.begin() + s);
            return verify("destroying a tuple");
        }
        if (what <= 9) {
            if constexpr (copyable) if (slots.size() < 5) {
                const u32 how = (u32)c.draw(4);
                Slot n;
                n.id = ids++;
                n.m = sl.m;
                c.sayf([&] { return "#" + S(n.id) + " = copy of #" + S(sl.id) + " (way " + S(how) + ")"; });
                if (how == 0) n.t.reset(new CT(*sl.t));
                else if (how == 1) n.t.reset(new CT(std::as_const(*sl.t)));
                else if (how == 2) n.t.reset(new CT(by_value(*sl.t)));
                else { std::vector<CT> v; v.push_back(*sl.t); v.push_back(*sl.t); v.push_back(v[0]); n.t.reset(new CT(v.back())); }
                slots.push_back(std::move(n));
                ++copies;
            }
            return verify("copying a tuple");
        }
        if (what <= 11) {
            c.sayf([&] { return "move #" + S(sl.id) + " elsewhere"; });
            std::unique_ptr<CT> n;
            if (c.chance(1, 3)) { std::vector<CT> v; v.push_back(std::move(*sl.t)); n.reset(new CT(std::move(v.back()))); }
            else n.reset(new CT(std::move(*sl.t)));
            sl.t = std::move(n);
            ++copies;
            return verify("moving a tuple");
        }
        if (what == 12) {
            if constexpr (all_values && std::is_move_assignable_v<CT>) if (slots.size() > 1) {
                const size_t o = (size_t)c.draw(slots.size());
                if (o == s) return;
                u32 how = (u32)c.draw(3);
                if constexpr (!std::is_copy_assignable_v<CT>) how = 2;
                c.sayf([&] { return std::string(how == 0 ? "#" : how == 1 ? "swap #" : "#") + S(sl.id) + (how == 1 ? " and #" : " = ") + S(slots[o].id); });
                if (how == 0) { if constexpr (std::is_copy_assignable_v<CT>) *sl.t = *slots[o].t; sl.m = slots[o].m; }
                else if (how == 1) { std::swap(*sl.t, *slots[o].t); std::swap(sl.m, slots[o].m); }
                else { *sl.t = std::move(*slots[o].t); sl.m = slots[o].m; slots.erase(slots.begin() + o); }
                ++copies;
                return verify("assigning a tuple");
            }
            return;
        }
        if (N) at((size_t)c.draw(N), [&]<size_t I>(std::integral_constant<size_t, I>) { // move one element out
            if constexpr (writable<I> && !is_ref<I>) {
                c.sayf([&] { return "move element " + S(I) + " out of #" + S(sl.id) + " and back"; });
                V<I> x = pigro::get<I>(std::move(*sl.t));
                const auto a = El<V<I>>::code(x);
                c.checkf(a == sl.m[I], [&] { return "element " + S(I) + " moved out of the tuple is value " + S(a) + " instead of " + S(sl.m[I]); });
                pigro::get<I>(*sl.t) = std::move(x);
                ++writes;
            }
        });
        verify("moving an element out and back");
    }

    void run() {
        for (size_t j = 0; j < sizeof...(Xs); ++j)
            xat(j, [&]<size_t J>(std::integral_constant<size_t, J>) {
                using X = std::tuple_element_t<J, std::tuple<Xs...>>;
                em[J] = (u32)c.draw(El<X>::D());
                std::get<J>(ext) = El<X>::make(em[J]);
            });
        create();
        const u32 n = (u32)c.range(4, c.tier ? 60 : 24);
        for (u32 i = 0; i < n && !c.failed; ++i) op();
        c.nontrivial = N > 0 && writes && copies;
    }
};
} // namespace tp
