// Harness for lifetimes (C26): leak detection around any case, results that
// outlive what they came from, and exceptions while values are copied.
#pragma once
#include "lazyh.h"
#include "misch.h"
#include <atomic>

namespace lf {
using namespace mx;
using pigro::operator>>;
using pigro::operator<<;
extern std::atomic<long> blocks;

// Runs a case and compares the number of live values and heap blocks. Tables of the
// harness are filled at first use, so a difference has to persist in reruns.
inline void guarded(Ctx &c, void (*body)(Ctx &)) {
    val::table<val::Trk>();
    const auto items = c.items, nt = c.nt_items;
    const bool replaying = c.replaying;
    const auto replay = c.replay;
    for (int i = 0; i < 3; ++i) {
        if (i) {
            c.replay.assign(c.st->choices, c.st->choices + c.st->n);
            c.replaying = true;
            c.st->n = 0;
            c.items = items;
            c.nt_items = nt;
        }
        val::hk.corrupt = false;
        const long live = val::hk.live, b = blocks;
        body(c);
        val::hk.armed = false;
        if (c.failed) break;
        const long dl = val::hk.live - live, db = blocks - b;
        if (!c.check(!val::hk.corrupt, "a value was used before its construction, after its destruction, or was copied bytewise")) break;
        if (!dl && !db) break;
        if (i == 2) c.checkf(false, [&] { return "something is leaked or destroyed twice: " + S(dl) + " live values and " + S(db) + " heap blocks more after the case than before"; });
    }
    c.replaying = replaying;
    c.replay = replay;
}

template<class T> concept simple = requires { El<T>::D(); };

// returns all arguments as values
struct Collect {
    std::string s = "some state that does not fit in place";
    template<class... A> auto operator()(const A &...a) const { if (s.size() != 37) std::abort(); return std::tuple<A...>(a...); }
};
struct Through {
    std::string s = std::string(50, 'z');
    auto operator()(auto x) const { if (s.size() != 50) std::abort(); return x; }
};
struct Count { // collects, with mutable state
    std::vector<int> n{ 0 };
    template<class... A> auto operator()(const A &...a) { n.push_back(n.back() + 1); return std::tuple<A...>(a...); }
};

template<class... Ts>
struct Temps {
    static constexpr size_t N = sizeof...(Ts);
    using CT = pigro::compressed_tuple<Ts...>;
    using ST = std::tuple<Ts...>;
    Ctx &c;
    std::array<u32, N> k{};

    template<size_t... I, class R> void verify(std::index_sequence<I...>, const R &r, const char *what) {
        static_assert(std::same_as<R, ST>);
        ([&] {
            const u32 a = El<Ts>::code(std::get<I>(r));
            c.checkf(a == k[I], [&] { return std::string(what) + ": value " + S(I) + " is " + S(a) + " instead of " + S(k[I]); });
        }(), ...);
    }
    template<class R> void ok(const R &r, const char *what) { c.say(what); if (!c.failed) verify(std::index_sequence_for<Ts...>{}, r, what); }

    template<size_t... I> void go(std::index_sequence<I...> is) {
        ((k[I] = (u32)c.draw(El<Ts>::D())), ...);
        auto m = [&](auto i) { return El<std::tuple_element_t<i(), ST>>::make(k[i()]); };
#define MK m(std::integral_constant<size_t, I>{})...
        switch (c.draw(8)) {
        case 0: {
            ok(pigro::lazy(Collect{}, MK)(), "result of a temporary lazy function");
            auto r = [&] { auto l = pigro::lazy(Count{}, MK); auto x = l(); l(); return x; }();
            ok(r, "result of a lazy function that is gone");
            auto l = [&] { ST vals(MK); auto f = std::make_unique<Collect>(); return std::apply([&](auto &...v) { return pigro::lazy(*f, v...); }, vals); }();
            ok(l(), "lazy function that outlives its constants");
            ok(l(), "lazy function that outlives its constants, again");
            auto n = [&] { auto inner = pigro::lazy(Collect{}, MK); return pigro::lazy(Through{}, inner); }();
            ok(n(), "lazy function that outlives its dependency");
            auto n2 = n; n = decltype(n)(n2); ok(n2(), "copy"); ok(n(), "assigned copy");
            std::vector<decltype(n)> v; for (int i = 0; i < 5; ++i) v.push_back(n); v.erase(v.begin()); for (auto &x : v) ok(x(), "lazy function in a vector");
            break;
        }
        case 1: {
            ok((ST(MK) >> Collect{})(), "result of a temporary bound function (tuple >> f)");
            ok((CT(MK) << Count{})(), "result of a temporary bound function (compressed_tuple << f)");
            ok(pigro::bind_back(Collect{}, MK)(), "result of a temporary bound function (bind_back)");
            ok(pigro::bind_front_tuple(Count{}, ST(MK))(), "result of a temporary bound function (bind_front_tuple)");
            break;
        }
        case 2: {
            auto b = [&] { auto f = std::make_unique<Count>(); auto t = std::make_unique<ST>(MK); return std::move(*t) >> std::move(*f); }();
            ok(b(), "bound function that outlives its tuple"); ok(b(), "again");
            auto d = b; ok(d(), "copy of a bound function"); b = [&] { return ST(MK) >> Count{}; }(); ok(b(), "assigned bound function"); ok(d(), "copy again");
            auto e = [&] { auto t = std::make_unique<CT>(MK); return pigro::bind_back_tuple(Count{}, std::move(*t)); }();
            ok(e(), "bound function that outlives its tuple"); auto g = std::move(e); ok(g(), "moved bound function");
            std::vector<decltype(g)> v; for (int i = 0; i < 5; ++i) v.push_back(g); v.erase(v.begin()); for (auto &x : v) ok(x(), "bound function in a vector");
            break;
        }
        case 3: {
            auto e = ST(pigro::get<I>(CT(MK))...);
            ok(e, "elements of temporary compressed tuples");
            auto t = [&] { auto p = std::make_unique<CT>(MK); return CT(*p); }();
            ok(ST(pigro::get<I>(t)...), "copy of a compressed tuple that is gone");
            auto u = [&] { auto p = std::make_unique<CT>(MK); return CT(std::move(*p)); }();
            ok(ST(pigro::get<I>(u)...), "moved from a compressed tuple that is gone");
            std::vector<CT> v; for (int i = 0; i < 5; ++i) v.emplace_back(MK); v.erase(v.begin()); for (auto &x : v) ok(ST(pigro::get<I>(x)...), "compressed tuple in a vector");
            std::optional<CT> o; o.emplace(MK); auto o2 = o; o.reset(); ok(ST(pigro::get<I>(*o2)...), "compressed tuple in an optional");
            break;
        }
        case 4: {
            ok(pigro::apply(Collect{}, CT(MK)), "result of apply of a temporary compressed tuple");
            ok(pigro::apply(Count{}, ST(MK)), "result of apply of a temporary tuple");
            if constexpr (N > 0) ok(pigro::transform(ST(MK), [](auto x) { return x; }), "result of transform of a temporary tuple");
            break;
        }
        case 5: {
            ok((pigro::uncaptured(MK) >> Collect{})(), "result of a temporary uncaptured function");
            auto u = [&] { ST vals(MK); auto f = std::make_unique<Collect>(); return std::apply([&](auto &...v) { return pigro::uncaptured(v...) >> *f; }, vals); }();
            ok(u(), "uncaptured function that outlives its values");
            auto d = u; ok(d(), "copy of an uncaptured function"); auto e = std::move(d); ok(e(), "moved uncaptured function"); ok(u(), "the original uncaptured function");
            std::vector<decltype(u)> v; for (int i = 0; i < 5; ++i) v.push_back(u); v.erase(v.begin()); for (auto &x : v) ok(x(), "uncaptured function in a vector");
            break;
        }
        case 6: {
            if constexpr (N > 0) {
                auto caps = [&] { auto t = std::make_unique<ST>(MK); return std::make_tuple(pigro::fwd_capture(std::move(std::get<I>(*t)))...); }();
                ok(ST(pigro::access(std::get<I>(caps))...), "captured values that outlive what they were moved from");
                ok(ST(pigro::access(std::move(std::get<I>(caps)))...), "captured values moved out of the capture");
            }
            auto o = [&] { Collect f; return pigro::overload{ f, [s = std::string(50, 'z')](std::nullptr_t, int, int) { return s; } }; }();
            ok(o(MK), "overload set that outlives its functions");
            auto r = [&] { Collect f; return pigro::recursive{ [f](auto &&, const auto &...a) { return f(a...); } }; }();
            ok(r(MK), "recursive function that outlives its function");
            break;
        }
        case 7: {
            auto r = [&] { auto f = std::make_unique<Count>(); auto w = pigro::regularized_void(*f); auto x = pigro::unregularized_void(w); auto y = pigro::regularized_void(x); return y; }();
            ok(r(MK), "result of a regularized function that outlives its function"); ok(r(MK), "again");
            auto d = r; ok(d(MK), "copy"); auto e = std::move(d); ok(e(MK), "moved");
            break;
        }
        }
#undef MK
        c.nontrivial = N > 0;
    }
    explicit Temps(Ctx &c) : c(c) { go(std::index_sequence_for<Ts...>{}); }
};

// ---- exceptions ---------------------------------------------------------------
struct Fn {
    val::Trk t{ 3 };
    std::string s = "some state that does not fit in place";
    template<class... A> u64 operator()(A... a) { return 1 + dig({ El<A>::code(a)... }); }
    static u64 dig(std::initializer_list<u32> l) { u64 h = 5; for (auto x : l) h = mix(h, x); return h >> 1; }
};

template<class... Ts>
struct Faults {
    static constexpr size_t N = sizeof...(Ts);
    using CT = pigro::compressed_tuple<Ts...>;
    using ST = std::tuple<Ts...>;
    using FR = decltype(std::declval<CT>() >> std::declval<Fn>());
    using BK = decltype(std::declval<ST>() << std::declval<Fn>());
    using BB = decltype(pigro::bind_back(std::declval<Fn>(), std::declval<Ts>()...));
    using UN = decltype(pigro::uncaptured(std::declval<Ts>()...) >> std::declval<Fn>());
    using LZ = decltype(pigro::lazy(std::declval<Fn>(), std::declval<Ts>()...));
    using K = std::array<u32, N>;
    Ctx &c;
    template<class T> struct Slot { std::unique_ptr<T> p; K k; };
    std::vector<Slot<CT>> ct;
    std::vector<Slot<FR>> fr;
    std::vector<Slot<BK>> bk;
    std::vector<Slot<BB>> bb;
    std::vector<Slot<UN>> un;
    std::vector<Slot<LZ>> lz;
    u32 thrown = 0, done = 0;

    bool attempt(auto &&f) { // false: an injected exception came out
        auto &h = val::hk;
        h.fired = false;
        if (c.chance(2, 3)) { h.kind = (int)c.draw(4); h.id = 7; h.countdown = (u32)c.draw(c.chance(1, 3) ? 24 : 4); h.armed = true; }
        bool threw = false;
        try { f(); } catch (...) { threw = true; }
        h.armed = false;
        c.check(!threw || h.fired, "an exception out of nowhere");
        c.check(threw || !h.fired, "an exception that was thrown did not come out");
        if (threw) { ++thrown; c.say("  ... throws"); } else ++done;
        c.check(!h.corrupt, "a value was used before its construction, after its destruction, or was copied bytewise");
        return !threw;
    }
    u64 expected(const K &k) { return [&]<size_t... I>(std::index_sequence<I...>) { return 1 + Fn::dig({ k[I]... }); }(std::make_index_sequence<N>{}); }

    template<class T> void make(std::vector<Slot<T>> &v, const char *name, auto &&create) {
        if (v.size() >= 3) { v.erase(v.begin() + c.draw(v.size())); c.sayf([&] { return std::string("destroy a ") + name; }); return; }
        K k{};
        for (size_t i = 0; i < N; ++i) { const u32 d[] = { El<Ts>::D()..., 1 }; k[i] = (u32)c.draw(d[i]); }
        c.sayf([&] { return std::string("create a ") + name; });
        [&]<size_t... I>(std::index_sequence<I...>) {
            ST vals(El<Ts>::make(k[I])...);
            attempt([&] { auto p = create(std::get<I>(vals)...); v.push_back({ std::move(p), k }); });
        }(std::make_index_sequence<N>{});
    }
    template<class T> void use(std::vector<Slot<T>> &v, const char *name) {
        auto &s = v[c.draw(v.size())];
        switch (c.draw(4)) {
        case 0: {
            c.sayf([&] { return std::string("copy a ") + name; });
            const K k = s.k;
            std::unique_ptr<T> q;
            if (attempt([&] { q = std::make_unique<T>(std::as_const(*s.p)); }) && v.size() < 4) v.push_back({ std::move(q), k });
            break;
        }
        case 1: {
            c.sayf([&] { return std::string("move a ") + name; });
            std::unique_ptr<T> q;
            if (attempt([&] { q = std::make_unique<T>(std::move(*s.p)); })) s.p = std::move(q);
            else v.erase(v.begin() + (&s - v.data())); // moved from
            break;
        }
        default:
            call(s, name);
        }
    }
    template<class T> void call(Slot<T> &s, const char *name) {
        c.sayf([&] { return std::string("call a ") + name; });
        u64 r = 0;
        if (attempt([&] { r = (*s.p)(); })) c.checkf(r == expected(s.k), [&] { return "a call of a " + std::string(name) + " returns a wrong result"; });
    }
    void elements(Slot<CT> &s, const K *other = nullptr) {
        [&]<size_t... I>(std::index_sequence<I...>) {
            ([&] {
                const u32 a = El<Ts>::code(pigro::get<I>(*s.p));
                if (other && a == (*other)[I]) s.k[I] = a;
                c.checkf(a == s.k[I], [&] { return "element " + S(I) + " of a compressed tuple is value " + S(a) + " instead of " + S(s.k[I]); });
            }(), ...);
        }(std::make_index_sequence<N>{});
    }
    void tuples() {
        if (ct.empty() || c.draw(3) == 0) return make(ct, "compressed tuple", [&](auto &...v) { if (c.draw(2)) return std::make_unique<CT>(std::as_const(v)...); return std::make_unique<CT>(std::move(v)...); });
        auto &s = ct[c.draw(ct.size())];
        const K k = s.k;
        switch (c.draw(4)) {
        case 0: { c.say("copy a compressed tuple"); std::unique_ptr<CT> q; if (attempt([&] { q = std::make_unique<CT>(std::as_const(*s.p)); }) && ct.size() < 4) ct.push_back({ std::move(q), k }); break; }
        case 1: { // elements are old or new values after a failed assignment
            auto &o = ct[c.draw(ct.size())];
            c.say("assign a compressed tuple");
            const K ok = o.k;
            if (attempt([&] { *s.p = std::as_const(*o.p); })) s.k = ok;
            else elements(s, &ok);
            break;
        }
        case 2: { auto &o = ct[c.draw(ct.size())]; c.say("assign a copy of a compressed tuple"); const K ok = o.k; if (attempt([&] { *s.p = CT(std::as_const(*o.p)); })) s.k = ok; break; }
        case 3: { c.say("copy the elements"); attempt([&] { [&]<size_t... I>(std::index_sequence<I...>) { ST copy(pigro::get<I>(*s.p)...); (void)copy; }(std::make_index_sequence<N>{}); }); break; }
        }
        for (auto &x : ct) if (!c.failed) elements(x);
    }
    void op() {
        auto f = [&] { Fn f; return f; };
        switch (c.draw(6)) {
        case 0: tuples(); break;
        case 1: fr.empty() || c.draw(4) == 0 ? make(fr, "bound function (>>)", [&](auto &...v) { Fn f; return std::unique_ptr<FR>(new auto(CT(std::move(v)...) >> std::move(f))); }) : use(fr, "bound function (>>)"); break;
        case 2: bk.empty() || c.draw(4) == 0 ? make(bk, "bound function (<<)", [&](auto &...v) { Fn f; return std::unique_ptr<BK>(new auto(ST(std::move(v)...) << std::move(f))); }) : use(bk, "bound function (<<)"); break;
        case 3: bb.empty() || c.draw(4) == 0 ? make(bb, "bound function (bind_back)", [&](auto &...v) { Fn f; return std::unique_ptr<BB>(new auto(pigro::bind_back(std::move(f), std::move(v)...))); }) : use(bb, "bound function (bind_back)"); break;
        case 4: un.empty() || c.draw(4) == 0 ? make(un, "uncaptured function", [&](auto &...v) { Fn f; return std::unique_ptr<UN>(new auto(pigro::uncaptured(std::move(v)...) >> std::move(f))); }) : use(un, "uncaptured function"); break;
        case 5: lz.empty() || c.draw(4) == 0 ? make(lz, "lazy function", [&](auto &...v) { Fn f; return std::unique_ptr<LZ>(new auto(pigro::lazy(f, v...))); }) : use(lz, "lazy function"); break;
        }
    }
    explicit Faults(Ctx &c) : c(c) {
        val::hk.armed = false;
        val::hk.paused = 0;
        const u32 n = (u32)c.range(1, c.tier ? 40 : 20);
        for (u32 i = 0; i < n && !c.failed; ++i) op();
        if (thrown && done) c.nontrivial = true;
    }
};
} // namespace lf
