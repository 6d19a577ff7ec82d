// Model-based harness for graphs of lazy functions. The generated program builds
// a graph with the library; the model below is an instance tree with the same
// shape that predicts results, evaluations, consultations and comparisons.
#pragma once
#include "vals.h"
#ifndef PBT_SUPPORT
#include <pigro/lazy.h>
#endif

namespace lz {
using pbt::Ctx;
using pbt::mix;
using pbt::S;
using pbt::u32;
using pbt::u64;
using val::BAD;

enum Mask : unsigned {
    VALUE = 1,   // results equal a fresh evaluation
    EVALS = 2,   // evaluation counts of non-void nodes
    CALLS = 4,   // consultations of plain functions
    CMPS = 8,    // comparisons
    FAULTS = 16, // inject exceptions
    COPIES = 32, // copy/move-heavy histories, state of functions
    VOIDS = 64,  // evaluation counts of void nodes
    ARGS = 128,  // constants received
    LIFE = 256,  // lifetimes
};

enum DepKind { DVAL, DSRC, DNODE };
struct Dep {
    DepKind kind;
    int idx;   // value slot, source, or node
    int form;  // form of the source function
    u32 dom;   // number of values
};
constexpr int STATEFUL = 4; // form of a source function with own state

struct Node {
    int id;
    std::vector<Dep> deps;
    u32 dom;       // 0: void
    bool named;    // can be called on its own
    bool ordinal;  // the wrapped function counts its own runs
};
struct Desc {
    std::vector<u32> srcdom;
    std::vector<u32> valdom;
    std::vector<Node> nodes;
    bool has_stateful = false;
};

constexpr int MAXN = 128;

struct Rec {
    int evals[MAXN] = {};
    int calls[MAXN] = {};
    std::vector<std::array<u64, 2>> ordinals; // node, ordinal
    std::vector<std::array<u64, 3>> wrong;    // node, position, code: constants received wrongly
    std::vector<std::array<u64, 2>> effects;  // void node, hash of arguments
    bool bad = false;
    void clear() { *this = Rec{}; }
};

struct FnParam { u64 seed; u32 mod; int mode; u32 pick; };

struct G { // state of the current case, reachable from stateless functions
    u32 src[MAXN] = {};
    u32 val[MAXN] = {};
    FnParam fn[MAXN];
    Rec rec;
    const Desc *desc = nullptr;
};
inline G g;

u32 fn_eval(int id, const u32 *codes, size_t n, u32 dom);

template<class R>
R result(u32 k, int tag) {
    auto r = val::make<R>(k);
    if constexpr (std::same_as<R, val::Spy>) r.tag = tag;
    return r;
}

template<class R, int ID, class... A>
R on_eval(const A &...a) {
    const std::array<u32, sizeof...(A)> codes{ val::code(a)... };
    ++g.rec.evals[ID];
    val::fault_point();
    const auto &n = g.desc->nodes[ID];
    for (size_t i = 0; i < codes.size(); ++i) {
        if (codes[i] == BAD) g.rec.bad = true;
        if (i < n.deps.size() && n.deps[i].kind == DVAL && codes[i] != g.val[n.deps[i].idx])
            g.rec.wrong.push_back({ (u64)ID, i, codes[i] });
    }
    if (codes.size() != n.deps.size()) g.rec.bad = true;
    if constexpr (std::same_as<R, void>) {
        u64 h = 1;
        for (auto k : codes) h = mix(h, k);
        g.rec.effects.push_back({ (u64)ID, h });
    } else {
        return result<R>(fn_eval(ID, codes.data(), codes.size(), n.dom), ID);
    }
}
template<class T, int S>
T on_src(u32 add = 0) {
    ++g.rec.calls[S];
    val::fault_point();
    return result<T>((g.src[S] + add) % val::D<T>(), 100 + S);
}

// ---- forms of plain functions -------------------------------------------
template<int S, class T> struct Src0 { T operator()() const { return on_src<T, S>(); } };
template<int S, class T> T src2() { return on_src<T, S>(); }
template<int S, class T> struct Src4 { u32 n = 0; T operator()() { return on_src<T, S>(n++); } };
template<int S, class T> struct Src5 {
    const T &operator()() const {
        static std::unique_ptr<T> store;
        T v = on_src<T, S>();
        val::Pause p;
        if (!store) store.reset(new auto(std::move(v))); else *store = std::move(v);
        return *store;
    }
};
template<int S, class T> struct Src6 final { T operator()() const { return on_src<T, S>(); } };
template<int S, class T> struct Src7 { const void *self = nullptr; int pad = 7; const T operator()() { return on_src<T, S>(); } };
template<int S, class T> auto src1() { return [s = &g] { (void)s; return on_src<T, S>(); }; }
template<int S, class T> std::function<T()> src3() { return Src0<S, T>{}; }

template<class T> inline T stat{};
template<int S, class T> struct Src9 { T operator()(int more = 0) const { return on_src<T, S>(more); } };

// ---- forms of wrapped functions -----------------------------------------
template<int ID, class R> struct Fn0 { template<class... A> R operator()(const A &...a) const { return on_eval<R, ID>(a...); } };
template<int ID, class R> struct Fn1 { template<class... A> R operator()(A... a) const { return on_eval<R, ID>(a...); } };
template<int ID, class R, class... A> auto fn2() { long k = 5; return [k, s = &g](A... a) -> R { (void)s; (void)k; return on_eval<R, ID>(a...); }; }
template<int ID, class R, class... A> R fn3(A... a) { return on_eval<R, ID>(a...); }
template<int ID, class R, class... A> std::function<R(A...)> fn4() { return Fn0<ID, R>{}; }
template<int ID, class R> struct Fn5 {
    u32 n = 0;
    template<class... A> R operator()(const A &...a) {
        const u32 k = ++n;
        g.rec.ordinals.push_back({ (u64)ID, k });
        return on_eval<R, ID>(a...);
    }
};
template<int ID, class R> struct Fn6 {
    template<class... A> decltype(auto) operator()(const A &...a) const {
        if constexpr (std::same_as<R, void>) {
            return on_eval<R, ID>(a...);
        } else {
            static std::unique_ptr<R> store;
            R v = on_eval<R, ID>(a...);
            val::Pause p;
            if (!store) store.reset(new auto(std::move(v))); else *store = std::move(v);
            return static_cast<const R &>(*store);
        }
    }
};
template<int ID, class R> struct Fn7 final { template<class... A> R operator()(const A &...a) const { return on_eval<R, ID>(a...); } };
template<int ID, class R> struct Fn8 { template<class... A> R operator()(A &&...a) { return on_eval<R, ID>(a...); } };

// ---- model ---------------------------------------------------------------
struct Inst {
    int node = -1;
    bool has = false;
    u32 cached = 0, ordinal = 0;
    struct D { bool has = false; u32 cached = 0, n = 0; };
    std::vector<D> d;       // per dependency
    std::vector<Inst> kids; // per lazy dependency, in order
};
struct Expect {
    int evals[MAXN] = {};
    int calls[MAXN] = {};
    int cmps[400] = {};
    std::vector<std::array<u64, 2>> ordinals;
    std::vector<std::array<u64, 2>> effects;
    bool cutoff = false; // something was re-evaluated to an equal value
    int total_evals = 0, skipped = 0;
};

std::pair<u32, bool> model_eval(Inst &x, Expect &e);
u32 pure(const Inst &x);

// ---- objects of the history ------------------------------------------------
struct Obj {
    Inst model;
    int name = 0;
    bool synced = true; // the model knows the state (no exception so far)
    virtual ~Obj() = default;
    virtual u32 call(bool &is_void) = 0;
    virtual std::unique_ptr<Obj> copy(int how) = 0;
    virtual std::unique_ptr<Obj> move() = 0;
    virtual bool assign(Obj &from, bool by_move) = 0;
    virtual std::function<u32()> keep() = 0; // call, and read the result later
};

template<class L, bool Rich>
struct ObjOf : Obj {
    std::unique_ptr<L> l; // on the heap, so that sanitizers see its end
    explicit ObjOf(L *x) : l(x) {}
    u32 call(bool &is_void) override {
        if constexpr (std::is_void_v<decltype((*l)())>) {
            is_void = true;
            (*l)();
            return 0;
        } else {
            is_void = false;
            const auto r = (*l)();
            val::Pause p;
            return val::code<std::remove_cvref_t<decltype(r)>>(r);
        }
    }
    std::function<u32()> keep() override {
        if constexpr (!Rich) {
            return {};
        } else if constexpr (std::is_void_v<decltype((*l)())>) {
            (*l)();
            return [] { return 0u; };
        } else {
            using R = decltype((*l)());
            if constexpr (std::is_reference_v<R>) {
                auto *p = &(*l)();
                return [p] { return val::code<std::remove_cvref_t<R>>(*p); };
            } else {
                auto p = std::make_shared<std::remove_cvref_t<R>>((*l)());
                return [p] { return val::code<std::remove_cvref_t<R>>(*p); };
            }
        }
    }
    template<class X>
    std::unique_ptr<Obj> wrap(X *x) {
        std::unique_ptr<Obj> o(new ObjOf<X, Rich>(x));
        o->model = model;
        o->synced = synced;
        return o;
    }
    std::unique_ptr<Obj> copy(int how) override {
        if (how == 0) return wrap(new L(*l));
        if constexpr (Rich) {
            using R = std::remove_cvref_t<decltype((*l)())>;
            if (how == 1) { L c(std::as_const(*l)); return wrap(new L(c)); }
            if (how == 2) {
                std::vector<L> v;
                v.push_back(*l);
                for (int i = 0; i < 3; ++i) v.push_back(v.front()); // reallocates
                return wrap(new L(v.back()));
            }
            if (how == 3) return wrap(new std::function<R()>(*l));
            if (how == 4) {
                auto f = [c = *l]() mutable { return c(); };
                auto f2 = f;
                return wrap(new std::function<R()>(std::move(f2)));
            }
        }
        return wrap(new L(std::as_const(*l)));
    }
    std::unique_ptr<Obj> move() override {
        if constexpr (Rich) {
            auto o = wrap(new L(std::move(*l)));
            l.reset();
            return o;
        } else {
            return nullptr;
        }
    }
    bool assign(Obj &from, bool by_move) override {
        if constexpr (Rich && std::is_copy_assignable_v<L> && std::is_move_assignable_v<L>) {
            if (auto *f = dynamic_cast<ObjOf *>(&from)) {
                if (by_move) *l = std::move(*f->l); else *l = *f->l;
                model = from.model;
                synced = from.synced;
                return true;
            }
        }
        return false;
    }
};

struct Harness {
    Ctx &c;
    const Desc &desc;
    unsigned mask;
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<Obj *> original = std::vector<Obj *>(MAXN, nullptr);
    int names = 0;
    bool saw_change = false, saw_cutoff = false, saw_skip = false, saw_eval = false, saw_copycall = false, saw_fault = false, saw_recover = false;
    long live0;
    std::vector<std::pair<std::function<u32()>, u32>> kept;
    u32 oldsrc[MAXN] = {};

    Harness(Ctx &ctx, const Desc &d, unsigned m);
    u32 pick_code(u32 dom);
    template<class T> T value(int slot) { return val::make<T>(g.val[slot]); }
    template<class T> T constant(int slot) { return result<T>(g.val[slot], 200 + slot); }
    // the variable a constant came from is changed after the fact
    template<class T> void clobber(T &v) {
        val::Pause p;
        auto n = val::make<T>((u32)c.draw(val::D<T>()));
        v = n;
    }

    void reset_counts();
    // no library operation other than a call evaluates, consults or compares anything
    void expect_nothing(const char *what);

    Inst instance(int node);
    template<int ID, bool Rich, class L>
    L &define(L &&l) {
        auto *o = new ObjOf<L, Rich>(new L(std::move(l)));
        defined(ID, o);
        return *o->l;
    }
    void defined(int id, Obj *o);
    // operations between two definitions: the original objects stay alive
    void some_ops();
    void history();
    void finish();

    void step(bool building);
    Obj &pick();
    void set_source();
    void burst();
    u32 last[MAXN] = {};
    bool lastvalid = false;

    void call(Obj &o, int verbosity);
    void judge(Obj &o, const Expect &e, u32 want, u32 got, bool is_void);
    void copy();
    void move();
    void destroy();
    void assign();
    void fault();
    void recover(Obj &o);
};

} // namespace lz
