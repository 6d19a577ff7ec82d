// Harness for bound functions: recording callables and cells with a history.
#pragma once
#include "tupleh.h"
#include <pigro/bind_tuple.h>

namespace val {
template<class T, T v> requires(!std::same_as<T, bool>) struct Tab<std::integral_constant<T, v>> { static std::vector<std::integral_constant<T, v>> get() { return { {} }; } };
}

namespace bd {
using namespace mx;
template<class T> inline const char tid = 0;
template<class T> const char *tname() { return __PRETTY_FUNCTION__; }

struct Arg {
    const void *type = nullptr;
    const char *name = "";
    u32 code = 0;
    int cat = -1; // 0 lvalue, 1 const lvalue, 2 rvalue, 3 const rvalue; -1 not checked
    const void *addr = nullptr;
};
inline std::vector<std::vector<Arg>> calls;

template<class T>
int cat() { return (std::is_lvalue_reference_v<T &&> ? 0 : 2) + std::is_const_v<std::remove_reference_t<T>>; }
template<class T>
Arg got(T &&x) { using V = std::remove_cvref_t<T>; return { &tid<V>, tname<V>(), El<V>::code(x), cat<T &&>(), std::addressof(x) }; }
template<class T>
Arg want(u32 code, int cat = -1, const void *addr = nullptr) { return { &tid<T>, tname<T>(), code, cat, addr }; }

inline u64 digest(const std::vector<Arg> &v) {
    u64 h = 99;
    for (auto &a : v) h = mix(h, a.code);
    return h;
}
template<class... A>
u64 record(A &&...a) { calls.push_back({ got(std::forward<A>(a))... }); return digest(calls.back()); }

// kinds of results
inline u64 global;
struct Nothing {}; // an empty class that is not regular_void
enum { RINT, RVOID, RSTR, RMOVE, RREF, RCREF, RPAIR, RCSTR = 8, REMPTY, RRREF };
template<int R>
decltype(auto) ret(u64 d) {
    global = d;
    if constexpr (R == RINT) return u64(d);
    else if constexpr (R == RSTR) return std::to_string(d);
    else if constexpr (R == RMOVE) return std::make_unique<u64>(d);
    else if constexpr (R == RREF) return (global);
    else if constexpr (R == RCREF) return (std::as_const(global));
    else if constexpr (R == RPAIR) return std::pair<u64, std::tuple<int>>(d, 5);
    else if constexpr (R == RCSTR) return static_cast<const std::string>(std::to_string(d));
    else if constexpr (R == REMPTY) return Nothing{};
    else if constexpr (R == RRREF) return std::move(global);
}
template<int R> using ret_t = decltype(ret<R>(0));
template<int R>
bool right(auto &&r, u64 d) {
    if constexpr (R == RINT) return r == d;
    else if constexpr (R == RSTR || R == RCSTR) return r == std::to_string(d);
    else if constexpr (R == RMOVE) return r && *r == d;
    else if constexpr (R == REMPTY) return same<std::remove_cvref_t<decltype(r)>, Nothing> && global == d;
    else if constexpr (R == RREF || R == RCREF || R == RRREF) return std::addressof(r) == &global && r == d;
    else if constexpr (R == RPAIR) return r == std::pair<u64, std::tuple<int>>(d, 5);
}

template<int R>
bool right_value(auto &&r, u64 d) { // references may arrive as values
    if constexpr (R == RREF || R == RCREF || R == RRREF) return r == d;
    else return right<R>(r, d);
}

// callables
template<int R> struct Gen { template<class... A> ret_t<R> operator()(A &&...a) const { return ret<R>(record(std::forward<A>(a)...)); } };
template<int R> struct GenFinal final { template<class... A> ret_t<R> operator()(A &&...a) const { return ret<R>(record(std::forward<A>(a)...)); } };
template<int R> struct GenMut { template<class... A> ret_t<R> operator()(A &&...a) { return ret<R>(record(std::forward<A>(a)...)); } };
template<int R> struct GenState { // state must survive
    u64 key = 0x1234567; std::string s = "some state that does not fit in place";
    template<class... A> ret_t<R> operator()(A &&...a) const { if (key != 0x1234567 || s != "some state that does not fit in place") std::abort(); return ret<R>(record(std::forward<A>(a)...)); }
};
template<int R> struct GenQual { // const and non-const differ
    template<class... A> ret_t<R> operator()(A &&...a) & { return ret<R>(record(std::forward<A>(a)...)); }
    template<class... A> ret_t<R> operator()(A &&...a) const & { return ret<R>(record(std::forward<A>(a)...)); }
};
struct Obj { // for member pointers
    int k = 0;
    u64 data = 77;
    bool operator==(const Obj &) const = default;
    template<int R, class... P> ret_t<R> mf(P... p) { return ret<R>(record(*this, static_cast<P &&>(p)...)); }
    template<int R, class... P> ret_t<R> mfc(P... p) const { return ret<R>(record(*this, static_cast<P &&>(p)...)); }
};
template<int R, class... P> ret_t<R> fn(P... p) { return ret<R>(record(static_cast<P &&>(p)...)); }

inline bool compare(Ctx &c, const std::vector<Arg> &exp) {
    if (!c.checkf(calls.size() == 1, [&] { return "the function is called " + S(calls.size()) + " times during one call"; })) return false;
    auto &g = calls[0];
    if (!c.checkf(g.size() == exp.size(), [&] { return "the function receives " + S(g.size()) + " arguments instead of " + S(exp.size()); })) return false;
    for (size_t i = 0; i < exp.size(); ++i) {
        if (!c.checkf(g[i].type == exp[i].type, [&] { return "argument " + S(i) + " has type " + g[i].name + " instead of " + exp[i].name; })) return false;
        if (!c.checkf(g[i].code == exp[i].code, [&] { return "argument " + S(i) + " has value " + S(g[i].code) + " instead of " + S(exp[i].code); })) return false;
        if (exp[i].cat >= 0 && !c.checkf(g[i].cat == exp[i].cat, [&] { return "argument " + S(i) + " has value category " + S(g[i].cat) + " instead of " + S(exp[i].cat) + " (0 lvalue, 1 const lvalue, 2 rvalue, 3 const rvalue)"; })) return false;
        if (exp[i].addr && !c.checkf(g[i].addr == exp[i].addr, [&] { return "argument " + S(i) + " is not the original object"; })) return false;
    }
    return true;
}
} // namespace bd

namespace val {
template<> struct Tab<bd::Obj> { static std::vector<bd::Obj> get() { return { { 0 }, { 1 }, { 2 }, { 3 } }; } };
}
namespace mx {
template<> struct El<bd::Obj *> {
    static std::array<bd::Obj, 3> &objs() { static std::array<bd::Obj, 3> o{ bd::Obj{ 0 }, bd::Obj{ 1 }, bd::Obj{ 2 } }; return o; }
    static u32 D() { return 3; }
    static bd::Obj *make(u32 k) { return &objs()[k % 3]; }
    static u32 code(bd::Obj *p) { return (u32)(p - objs().data()); }
};
template<> struct El<std::reference_wrapper<bd::Obj>> {
    static u32 D() { return 3; }
    static std::reference_wrapper<bd::Obj> make(u32 k) { return *El<bd::Obj *>::make(k); }
    static u32 code(const std::reference_wrapper<bd::Obj> &p) { return El<bd::Obj *>::code(&p.get()); }
};
} // namespace mx

// ---- C14: histories of state ---------------------------------------------
namespace bd {
struct Cell {
    u64 h = 0;
    bool external = false; // lives in the caller: must not be copied
    std::unique_ptr<u64> shadow = std::make_unique<u64>(0); // detects shallow copies
    static inline u32 external_copies = 0;
    Cell() = default;
    explicit Cell(u64 v) : h(v), shadow(new u64(v)) {}
    Cell(const Cell &o) : h(o.h), shadow(new u64(*o.shadow)) { if (o.external) ++external_copies; }
    Cell(Cell &&o) noexcept : h(o.h), shadow(new u64(o.shadow ? *o.shadow : 0)) { if (o.external) ++external_copies; }
    Cell &operator=(const Cell &o) { h = o.h; *shadow = *o.shadow; return *this; }
    void set(u64 v) { h = v; *shadow = v; }
    u64 read() const { return h == *shadow ? h : 0xbadbadbad; }
};
struct Pin : Cell { // can be bound by reference only
    Pin() = default;
    Pin(const Pin &) = delete;
    Pin &operator=(const Pin &) = delete;
};

inline u64 peek(const Cell &x) { return x.read(); }
inline u64 peek(const std::reference_wrapper<Cell> &x) { return x.get().read(); }
inline u64 peek(Cell *x) { return x->read(); }
inline u64 peek(int x) { return (u64)x; }
inline u64 peek(const val::Empty &) { return 5; }
inline void poke(Cell &x, u64 h) { x.set(mix(x.read(), h)); }
inline void poke(const Cell &, u64) {}
inline void poke(Cell &&x, u64 h) { x.set(mix(x.read(), h)); }
inline void poke(const Cell &&, u64) {}
inline void poke(const std::reference_wrapper<Cell> &x, u64 h) { poke(x.get(), h); }
inline void poke(Cell *x, u64 h) { poke(*x, h); }
inline void poke(const int &, u64) {}
inline void poke(const val::Empty &, u64) {}

// reads everything, then changes everything it may change
inline u64 step(auto &&own, auto &&...a) {
    u64 h = peek(own);
    ((h = mix(h, peek(a))), ...);
    u64 i = 0;
    poke(own, h);
    (poke(std::forward<decltype(a)>(a), h + ++i), ...);
    return h;
}
inline Cell none;
struct FState {
    Cell s;
    template<class... A> u64 operator()(A &&...a) & { return step(s, std::forward<A>(a)...); }
    template<class... A> u64 operator()(A &&...a) && { const u64 r = step(s, std::forward<A>(a)...); s = Cell(0xdead); return ~r; } // gives its state away
};
struct FFinal final {
    Cell s;
    template<class... A> u64 operator()(A &&...a) & { return step(s, std::forward<A>(a)...); }
    template<class... A> u64 operator()(A &&...a) && { const u64 r = step(s, std::forward<A>(a)...); s = Cell(0xdead); return ~r; } // gives its state away
};
struct FConst {
    template<class... A> u64 operator()(A &&...a) const & { return step(0, std::forward<A>(a)...); }
    template<class... A> u64 operator()(A &&...a) const && { return ~step(0, std::forward<A>(a)...); }
};
inline auto lambda_state(u64 v) { return [s = Cell(v)](auto &&...a) mutable { return step(s, std::forward<decltype(a)>(a)...); }; }
using FLambda = decltype(lambda_state(0));

// model: a bound function is a list of cells, some of which it shares
struct Ref { int id = -1; bool writes = true; u64 fixed = 0; bool by_value = false; }; // id<0: a fixed value
struct Model {
    std::vector<u64> cells;
    int fresh(u64 v) { cells.push_back(v); return (int)cells.size() - 1; }
    u64 get(const Ref &r) const { return r.id < 0 ? r.fixed : cells[r.id]; }
    u64 step(const Ref &f, const std::vector<Ref> &args) {
        u64 h = get(f);
        for (auto &a : args) h = mix(h, get(a));
        u64 i = 0;
        auto poke = [&](const Ref &r, u64 v) { if (r.id >= 0 && r.writes) cells[r.id] = mix(cells[r.id], v); };
        poke(f, h);
        for (auto &a : args) poke(a, h + ++i);
        return h;
    }
};
struct Bound { // of one object
    Ref f;
    std::vector<Ref> els;
    std::vector<char> owned; // per element; [0] is the function
};

template<class B, bool Front>
struct Histories {
    Ctx &c;
    Model m;
    struct Slot { std::unique_ptr<B> b; Bound model; int id; std::function<u64(int)> fn; bool wrapped = false; };
    std::vector<Slot> slots;
    std::deque<Cell> ext;     // further arguments
    std::vector<int> ext_ids;
    std::function<void()> check_ext; // compares everything the caller can see
    int ids = 0;
    u32 ncalls = 0, nother = 0;

    explicit Histories(Ctx &c) : c(c) {
        for (int i = 0; i < 2; ++i) { ext.emplace_back(100 + i); ext_ids.push_back(m.fresh(100 + i)); }
    }
    Bound copy(const Bound &b) {
        Bound r = b;
        if (b.owned[0] && b.f.id >= 0) r.f.id = m.fresh(m.get(b.f));
        for (size_t i = 0; i < b.els.size(); ++i) if (b.owned[i + 1] && b.els[i].id >= 0) r.els[i].id = m.fresh(m.get(b.els[i]));
        return r;
    }
    void add(std::unique_ptr<B> b, Bound model) { slots.push_back({ std::move(b), std::move(model), ids++ }); }
    void verify() {
        for (size_t i = 0; i < ext.size(); ++i) c.check(ext[i].read() == m.cells[ext_ids[i]], "an argument of a call was not changed as by a direct call");
        check_ext();
        c.check(Cell::external_copies == 0, "something that was bound as an lvalue has been copied");
    }
    void call(Slot &s) {
        std::vector<Ref> extra;
        u64 r = 0;
        if (s.wrapped) {
            extra = { Ref{ -1, false, 7 } };
            r = s.fn(7);
        } else switch (c.draw(5)) {
        case 0: r = (*s.b)(); break;
        case 1: extra = { { ext_ids[0] } }; r = (*s.b)(ext[0]); break;
        case 2: extra = { { -1, false, 3 } }; r = (*s.b)(3); break;
        case 3: extra = { { ext_ids[1] }, { -1, false, 4 }, { ext_ids[0], false } }; r = (*s.b)(ext[1], 4, std::as_const(ext[0])); break;
        case 4: extra = { { -1, false, 9 }, { ext_ids[0] } }; r = std::move(*s.b)(9, &ext[0]); break;
        }
        std::vector<Ref> all = Front ? s.model.els : extra;
        const auto &tail = Front ? extra : s.model.els;
        all.insert(all.end(), tail.begin(), tail.end());
        const u64 w = m.step(s.model.f, all);
        c.sayf([&] { return "call #" + S(s.id) + " with " + S(extra.size()) + " further arguments -> " + S(r % 10007); });
        c.checkf(r == w, [&] { return "the call of bound function #" + S(s.id) + " returns " + S(r % 10007) + " instead of " + S(w % 10007) + " (hash of the states it was given)"; });
        ++ncalls;
        verify();
    }
    void op(const std::function<void()> &change_ext) {
        if (slots.empty()) return;
        auto &s = slots[c.draw(slots.size())];
        switch (c.draw(10)) {
        case 0: case 1: case 2: case 3: return call(s);
        case 4: change_ext(); ++nother; return verify();
        case 5: case 6:
            if constexpr (std::is_copy_constructible_v<B>) if (slots.size() < 5 && !s.wrapped) {
                const auto how = c.draw(4);
                Slot n{ nullptr, copy(s.model), ids++ };
                c.sayf([&] { return "#" + S(n.id) + " = copy of #" + S(s.id) + " (way " + S(how) + ")"; });
                if (how == 0) n.b.reset(new B(*s.b));
                else if (how == 1) n.b.reset(new B(std::as_const(*s.b)));
                else if (how == 2) { std::vector<B> v; v.push_back(*s.b); v.push_back(v[0]); n.b.reset(new B(std::move(v.back()))); }
                else { n.fn = *s.b; n.wrapped = true; }
                slots.push_back(std::move(n));
                ++nother;
            }
            return verify();
        case 7: case 8:
            c.sayf([&] { return "move #" + S(s.id) + " elsewhere"; });
            if (s.wrapped) { auto f = std::move(s.fn); s.fn = std::move(f); }
            else { std::unique_ptr<B> n(new B(std::move(*s.b))); s.b = std::move(n); }
            ++nother;
            return verify();
        default:
            if (slots.size() > 1) {
                c.sayf([&] { return "destroy #" + S(s.id); });
                slots.erase(slots.begin() + (&s - slots.data()));
                ++nother;
            }
            return verify();
        }
    }
    void run(const std::function<void()> &change_ext) {
        verify();
        const u32 n = (u32)c.range(3, c.tier ? 60 : 24);
        for (u32 i = 0; i < n && !c.failed; ++i) op(change_ext);
        c.nontrivial = ncalls >= 2 && nother;
    }
};

// ---- C15: what is accepted -------------------------------------------------
template<class B, class... A>
concept callable = requires(B &&b, A &&...a) { std::forward<B>(b)(std::forward<A>(a)...); };
template<class B, class... A>
void instantiate(B &b, A &&...a) { b(std::forward<A>(a)...); }
template<int I> struct Tag { static constexpr int value = I; };
template<class... T> struct L {};
template<class B, class G, class... A, class... AL>
void accept(Ctx &c, const char *txt, L<A...>, L<AL...>) {
    constexpr bool ok = std::is_invocable_v<G, AL...>;
    c.item(ok);
    c.sayf([&] { return std::string(ok ? "accepted: " : "rejected: ") + txt; });
    c.checkf(std::is_invocable_v<B &, A...> == ok, [&] { return std::string("a call ") + txt + (ok ? " that the function accepts with the bound values is rejected" : " that the function does not accept with the bound values is accepted"); });
    c.checkf(callable<B &, A...> == ok, [&] { return std::string("a requires-expression judges the call ") + txt + " wrongly"; });
    c.checkf(std::is_invocable_v<B, A...> == ok, [&] { return std::string("a call ") + txt + " of the rvalue is judged wrongly"; });
    if constexpr (ok && std::is_invocable_v<B &, A...>) {
        c.check(same<std::invoke_result_t<B &, A...>, std::invoke_result_t<G, AL...>>, "the result type differs from that of the direct call");
        (void)&instantiate<B, A...>;
    }
}
template<class O, class G0, class G1, class... A, class... AL>
void choose(Ctx &c, const char *txt, L<A...>, L<AL...>) {
    constexpr bool k0 = std::is_invocable_v<G0, AL...>, k1 = std::is_invocable_v<G1, AL...>;
    if constexpr (!k0 && !k1) {
        c.checkf(!std::is_invocable_v<O &, A...>, [&] { return std::string("an overload set accepts ") + txt + " although none of its functions does"; });
    } else if constexpr (k0 != k1) {
        if (c.checkf(std::is_invocable_v<O &, A...>, [&] { return std::string("an overload set does not accept ") + txt + " although one of its functions does"; })) {
            if constexpr (std::is_invocable_v<O &, A...>) {
                c.checkf(same<std::invoke_result_t<O &, A...>, typename std::conditional_t<k0, std::invoke_result<G0, AL...>, std::invoke_result<G1, AL...>>::type>, [&] { return std::string("an overload set selects the wrong function for ") + txt; });
            }
        }
    }
}
struct FromInt { FromInt(int) {} };
struct ToInt { operator int() const { return 1; } };
struct Base {};
struct Derived : Base { int x = 0; };
struct Explicit { explicit Explicit(int) {} };
} // namespace bd
