// Harness for C28: actors that share no object, but run in each other's midst -
// in nested calls, alternately in several threads, and freely in several threads.
// The oracle is what each of them did when it ran alone.
#pragma once
#include "pbt.h"
#include <pigro/apply.h>
#include <pigro/bind_tuple.h>
#include <pigro/compressed_tuple.h>
#include <pigro/lazy.h>
#include <pigro/overload.h>
#include <pigro/pack_algorithms.h>
#include <pigro/recursive.h>
#include <pigro/regular_void.h>
#include <pigro/to_tuple.h>
#include <pigro/tuple_algorithms.h>
#include <pigro/uncapture.h>
#include <atomic>
#include <semaphore>
#include <thread>

namespace cn {
using pbt::Ctx, pbt::u32, pbt::u64, pbt::mix, pbt::S;

struct World;
struct Sched { virtual void at(World &) = 0; virtual ~Sched() = default; };
struct World {
    u64 src[4] = { 0, 1, 2, 3 };
    std::vector<u64> trace;
    Sched *sched = nullptr;
    int id = 0;
};
inline thread_local World *cur = nullptr;
// a place where others may run
inline void pause() { auto *w = cur; if (w && w->sched) w->sched->at(*w); }
inline void here(u64 event) { cur->trace.push_back(event); pause(); }

// values whose copies and comparisons can be interrupted
struct Y {
    u64 k = 0;
    std::unique_ptr<u64> heap = std::make_unique<u64>(0);
    Y() = default;
    explicit Y(u64 v) : k(v), heap(new u64(v)) {}
    Y(const Y &o) : k(o.k), heap(new u64(*o.heap)) { pause(); }
    Y(Y &&o) noexcept : k(o.k), heap(new u64(*o.heap)) { pause(); }
    ~Y() { pause(); }
    Y &operator=(const Y &o) { k = o.k; *heap = *o.heap; pause(); return *this; }
    Y &operator=(Y &&o) noexcept { k = o.k; *heap = *o.heap; pause(); return *this; }
    bool operator==(const Y &o) const { pause(); return k == o.k && *heap == *o.heap; }
};
// results of predicates
struct B { bool b; explicit operator bool() const { pause(); return b; } ~B() { pause(); } };
template<int> struct E { E() = default; E(const E &) { pause(); } ~E() { pause(); } E &operator=(const E &) = default; bool operator==(const E &) const { return true; } };

template<class T> struct Val;
template<> struct Val<long> { static long mk(u64 k) { return (long)k; } static u64 dig(long x) { return (u64)x; } };
template<> struct Val<int> { static int mk(u64 k) { return (int)k; } static u64 dig(int x) { return (u64)x; } };
template<> struct Val<std::string> {
    static std::string mk(u64 k) { return std::string(k % 3 * 20, 'x') + std::to_string(k); }
    static u64 dig(const std::string &s) { u64 h = 5; for (char c : s) h = mix(h, (u64)c); return h; }
};
template<> struct Val<std::vector<int>> {
    static std::vector<int> mk(u64 k) { return std::vector<int>(k % 4, (int)k); }
    static u64 dig(const std::vector<int> &v) { u64 h = 6; for (int c : v) h = mix(h, (u64)c); return h; }
};
template<> struct Val<Y> { static Y mk(u64 k) { return Y(k); } static u64 dig(const Y &y) { return y.k == *y.heap ? y.k : 0xbadbad; } };
template<int I> struct Val<E<I>> { static E<I> mk(u64) { return {}; } static u64 dig(const E<I> &) { return 70 + I; } };
template<class T> T mk(u64 k) { return Val<T>::mk(k); }
template<class T> concept valued = requires { Val<T>::mk(0); };
template<class T> u64 dig(const T &x) { if constexpr (valued<T>) return Val<T>::dig(x); else return 1; }
template<class... A> u64 digs(u64 h, const A &...a) { ((h = mix(h, dig(a))), ...); return h; }

// plain functions, and functions of any arguments; without and with state
template<int I, class R> struct Src { R operator()() const { const u64 k = cur->src[I]; here(mix(1, I)); return mk<R>(k); } };
template<int I, class R> struct SrcS { u64 n = 0; R operator()() { ++n; here(mix(mix(2, I), n)); return mk<R>(cur->src[I]); } };
template<int I, class R> struct Fn {
    R operator()(const auto &...a) const {
        const u64 h = digs(I, a...);
        here(mix(3, h));
        const u64 g = digs(I, a...); // after the others
        if (g != h) here(0xdead);
        if constexpr (!std::is_void_v<R>) return mk<R>(h % 3);
    }
};
template<int I, class R> struct FnS {
    u64 n = 0;
    R operator()(const auto &...a) {
        const u64 h = mix(digs(I, a...), ++n), m = n;
        here(mix(4, h));
        if (n != m) here(0xdead);
        if constexpr (!std::is_void_v<R>) return mk<R>(h % 3);
    }
};
template<int I, class R> struct FnY { // state that is copied slowly
    Y y{ I };
    R operator()(const auto &...a) {
        const u64 h = mix(digs(I, a...), dig(y));
        here(mix(5, h));
        y = Y(h % 1000);
        if constexpr (!std::is_void_v<R>) return mk<R>(h % 3);
    }
};
struct Rec { u64 operator()(const auto &self, u64 n) const { here(mix(6, n)); return n < 2 ? n + cur->src[0] : self(n - 1) * 3 + self(n - 2); } };
struct RecS { Y count; u64 operator()(auto &self, u64 n) { here(mix(7, n)); self.count = Y(self.count.k + 1); return n < 2 ? self.count.k : self(n - 1) * 3 + self(n - 2); } };

using Step = std::array<u64, 4>;
struct Actor {
    World w;
    std::vector<Step> program;
    size_t next = 0;
    bool busy = false;
    virtual ~Actor() = default;
    virtual void reset() = 0;
    virtual void perform(const Step &) = 0;
    bool done() const { return next >= program.size(); }
    void step() {
        auto *before = cur;
        cur = &w;
        busy = true;
        perform(program[next++]);
        busy = false;
        cur = before;
    }
    void finish() { auto *before = cur; cur = &w; reset(); cur = before; }
    void start(Sched *s) { const int id = w.id; w = World{}; w.id = id; w.sched = s; next = 0; reset(); }
};

template<class Act>
struct ActorOf : Actor {
    using O = decltype(Act::create());
    std::vector<std::unique_ptr<O>> objs;
    void reset() override { objs.clear(); }
    void perform(const Step &s) override {
        const size_t i = objs.empty() ? 0 : s[1] % objs.size();
        u64 op = objs.empty() ? 8 : s[0];
        if (op <= 1) w.src[s[1] % 4] = s[2];
        else if (op <= 5) { const u64 r = Act::call(*objs[i], s[2], s[3]); w.trace.push_back(mix(10, r)); }
        else if (op == 6) { auto n = std::make_unique<O>(*objs[i]); objs.push_back(std::move(n)); }
        else if (op == 7) { auto n = std::make_unique<O>(std::move(*objs[i])); objs[i] = std::move(n); }
        else if (op == 8) objs.push_back(std::unique_ptr<O>(new O(Act::create())));
        else if (objs.size() > 1) objs.erase(objs.begin() + (long)i);
        w.trace.push_back(mix(11, op));
    }
};

// ---- schedules --------------------------------------------------------------
struct Nested : Sched {
    Ctx &c;
    std::vector<Actor *> actors;
    int depth = 0, switches = 0;
    explicit Nested(Ctx &c) : c(c) {}
    void at(World &) override {
        if (depth >= 3 || switches > 300 || !c.chance(1, 3)) return;
        auto *a = actors[c.draw(actors.size())];
        if (a->busy || a->done()) return;
        ++depth, ++switches;
        a->step();
        --depth;
    }
};
struct Baton : Sched { // one thread per actor, of which one runs at a time
    Ctx &c;
    std::vector<Actor *> actors;
    std::vector<std::unique_ptr<std::binary_semaphore>> turn;
    std::binary_semaphore end{ 0 };
    std::vector<bool> left;
    int switches = 0;
    explicit Baton(Ctx &c) : c(c) {}
    void hand(size_t from) { // to any other actor that is not done
        std::vector<size_t> o;
        for (size_t i = 0; i < actors.size(); ++i) if (!left[i] && i != from) o.push_back(i);
        if (o.empty()) { if (left[from]) end.release(); return; }
        const size_t to = o[c.draw(o.size())];
        const bool back = !left[from];
        switches += back;
        turn[to]->release();
        if (back) turn[from]->acquire();
    }
    void at(World &w) override {
        if (switches < 400 && c.chance(1, 3)) hand((size_t)w.id);
    }
    void run() {
        left.assign(actors.size(), false);
        for (size_t i = 0; i < actors.size(); ++i) turn.push_back(std::make_unique<std::binary_semaphore>(0));
        std::vector<std::thread> t;
        for (size_t i = 0; i < actors.size(); ++i)
            t.emplace_back([this, i] {
                turn[i]->acquire();
                while (!actors[i]->done()) { at(actors[i]->w); actors[i]->step(); }
                actors[i]->finish();
                left[i] = true;
                hand(i);
            });
        turn[c.draw(actors.size())]->release();
        end.acquire();
        for (auto &x : t) x.join();
    }
};
struct Free : Sched {
    void at(World &) override {}
    static void run(std::vector<Actor *> &actors) {
        std::atomic<int> ready{ 0 };
        std::vector<std::thread> t;
        for (auto *a : actors)
            t.emplace_back([&, a] {
                ++ready;
                while (ready.load(std::memory_order_relaxed) < (int)actors.size()) std::this_thread::yield();
                while (!a->done()) a->step();
                a->finish();
            });
        for (auto &x : t) x.join();
    }
};

template<class... Acts>
void run(Ctx &c) {
    const size_t n = (size_t)c.range(2, 4);
    std::vector<std::unique_ptr<Actor>> own;
    std::vector<Actor *> actors;
    const size_t shift = (size_t)c.draw(sizeof...(Acts));
    for (size_t i = 0; i < n; ++i) {
        size_t k = 0;
        (void)((k++ == (i + shift) % sizeof...(Acts) ? (own.emplace_back(new ActorOf<Acts>), true) : false) || ...);
        actors.push_back(own.back().get());
        actors[i]->w.id = (int)i;
    }
    auto draw = [&] {
        std::vector<Step> p;
        const u64 m = c.range(2, 14);
        for (u64 i = 0; i < m; ++i) p.push_back({ c.draw(10), c.draw(8), c.draw(3), c.draw(3) });
        return p;
    };
    const auto common = draw();
    for (auto *a : actors) a->program = c.chance(1, 2) ? draw() : common;
    c.sayf([&] {
        std::string s = S(n) + " actors;";
        for (auto *a : actors) {
            s += "\n  actor " + S(a->w.id) + ":";
            static const char *names[] = { "set", "set", "call", "call", "call", "call", "copy", "move", "create", "destroy" };
            for (auto &p : a->program) s += std::string(" ") + names[p[0]] + "(" + S(p[1]) + "," + S(p[2]) + "," + S(p[3]) + ")";
        }
        return s;
    });
    std::vector<std::vector<u64>> alone;
    for (auto *a : actors) {
        a->start(nullptr);
        while (!a->done()) a->step();
        a->finish();
        alone.push_back(a->w.trace);
        for (auto e : a->w.trace) if (e == 0xdead) c.fail("arguments or state changed while nobody else was running");
    }
    auto compare = [&](const char *how) {
        for (size_t i = 0; i < n; ++i) {
            auto &t = actors[i]->w.trace;
            c.checkf(t == alone[i], [&] {
                size_t k = 0;
                while (k < t.size() && k < alone[i].size() && t[k] == alone[i][k]) ++k;
                return std::string("actor ") + S(i) + " acts differently (event " + S(k) + " of " + S(alone[i].size()) + ") than alone when " + how;
            });
        }
    };
    for (size_t i = n; i--;) {
        actors[i]->start(nullptr);
        while (!actors[i]->done()) actors[i]->step();
        actors[i]->finish();
    }
    compare("it runs again");
    if (c.failed) return;
    switch (c.draw(3)) {
    case 0: {
        Nested s(c);
        s.actors = actors;
        for (auto *a : actors) a->start(&s);
        for (bool more = true; more;) {
            more = false;
            for (auto *a : actors) if (!a->done()) { a->step(); more = true; }
        }
        for (auto *a : actors) a->w.sched = nullptr, a->finish();
        c.nontrivial = s.switches > 1;
        c.label("nested");
        compare("others run within its calls");
        break;
    }
    case 1: {
        Baton s(c);
        s.actors = actors;
        for (auto *a : actors) a->start(&s);
        s.run();
        c.nontrivial = s.switches > 1;
        c.label("alternating threads");
        compare("others run in threads that alternate");
        break;
    }
    default: {
        for (int r = 0; r < (c.replaying ? 10 : 1) && !c.failed; ++r) {
            for (auto *a : actors) a->start(nullptr);
            Free::run(actors);
            compare("others run in other threads");
        }
        c.nontrivial = true;
        c.label("free threads");
    }
    }
}
} // namespace cn
