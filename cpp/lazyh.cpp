// Compiled once per run; see lazyh.h
#define PBT_SUPPORT
#include "lazyh.h"
namespace lz {
Harness::Harness(Ctx &ctx, const Desc &d, unsigned m) : c(ctx), desc(d), mask(m) {
        val::table<val::Trk>();
        val::hk = [] { val::Hooks h; h.live = val::hk.live; return h; }();
        g.desc = &desc;
        g.rec.clear();
        for (size_t i = 0; i < desc.srcdom.size(); ++i) g.src[i] = oldsrc[i] = pick_code(desc.srcdom[i]);
        for (size_t i = 0; i < desc.valdom.size(); ++i) g.val[i] = pick_code(desc.valdom[i]);
        for (auto &n : desc.nodes) {
            auto &p = g.fn[n.id];
            const u32 dom = std::max(n.dom, 1u);
            static const u32 mods[] = { 0xffffffff, 2, 3, 1, 5 };
            p.mode = (int)c.draw(3);
            p.mod = std::min(mods[c.draw(5)], dom);
            p.seed = c.draw(1 << 20);
            p.pick = (u32)c.draw(std::max<size_t>(n.deps.size(), 1));
        }
        live0 = val::hk.live;
        c.sayf([&] {
            std::string s = "sources:";
            for (size_t i = 0; i < desc.srcdom.size(); ++i) s += " s" + S(i) + "=" + S(g.src[i]);
            s += "  constants:";
            for (size_t i = 0; i < desc.valdom.size(); ++i) s += " v" + S(i) + "=" + S(g.val[i]);
            return s;
        });
}

u32 Harness::pick_code(u32 dom) {
        if (c.chance(1, 2)) return (u32)c.draw(std::min(dom, 4u));
        return (u32)c.draw(dom);
}

void Harness::reset_counts() {
        g.rec.clear();
        std::fill(std::begin(val::hk.cmps), std::end(val::hk.cmps), 0);
}

void Harness::expect_nothing(const char *what) {
        for (auto &n : desc.nodes) {
            if (mask & EVALS) c.checkf(!g.rec.evals[n.id], [&] { return S(what) + " evaluated node n" + S(n.id); });
            if (mask & VOIDS) c.checkf(n.dom || !g.rec.evals[n.id], [&] { return S(what) + " ran void node n" + S(n.id); });
            if (mask & CMPS) c.checkf(!val::hk.cmps[n.id], [&] { return S(what) + " compared results of n" + S(n.id); });
        }
        for (size_t s = 0; s < desc.srcdom.size(); ++s)
            if (mask & CALLS) c.checkf(!g.rec.calls[s], [&] { return S(what) + " called source function s" + S(s); });
        reset_counts();
}

Inst Harness::instance(int node) {
        Inst x;
        x.node = node;
        const auto &n = desc.nodes[node];
        x.d.resize(n.deps.size());
        for (auto &d : n.deps)
            if (d.kind == DNODE) x.kids.push_back(desc.nodes[d.idx].named ? original[d.idx]->model : instance(d.idx));
        return x;
}

void Harness::defined(int id, Obj *o) {
        expect_nothing("creating a lazy function");
        o->model = instance(id);
        o->name = names++;
        for (auto &d : desc.nodes[id].deps) if (d.kind == DNODE && desc.nodes[d.idx].named && !original[d.idx]->synced) o->synced = false;
        c.sayf([&] { return "o" + S(o->name) + " = node n" + S(id); });
        original[id] = o;
        objs.emplace_back(o);
}

void Harness::some_ops() {
        for (u64 i = c.draw(4); i-- && !c.failed;) step(true);
        reset_counts();
}

void Harness::history() {
        u64 n = c.draw(20);
        if (c.chance(1, 8)) n += c.draw(60);
        for (u64 i = 0; i < n + 3 && !c.failed; ++i) step(false);
        finish();
}

void Harness::finish() {
        for (auto &[k, v] : kept) {
            if (mask & LIFE) c.checkf(k() == v, [&] { return S("a result that was returned earlier has changed since"); });
        }
        kept.clear();
        objs.clear();
        if (mask & LIFE) {
            c.check(!val::hk.corrupt, "a value was used before its construction, after its destruction, or after being moved bytewise");
        }
        const bool f = mask & FAULTS, cp = mask & COPIES;
        c.nontrivial = f ? saw_recover : cp ? (saw_copycall && saw_change) : (mask & VALUE) || (mask & ARGS) ? saw_change && saw_eval : saw_change && saw_skip;
        if (saw_change) c.label("source_changed");
        if (saw_cutoff) c.label("early_cutoff");
        if (saw_skip) c.label("skipped_evaluation");
        if (saw_copycall) c.label("called_copy");
        if (saw_fault) c.label("exception");
        if (saw_recover) c.label("recovered");
        if (objs.size() > 4) c.label("many_objects");
}

void Harness::step(bool building) {
        static const int plain[] = { 0, 0, 0, 1, 1, 1, 1, 2, 3, 1 };
        static const int copies[] = { 0, 1, 1, 2, 3, 4, 5, 6, 1, 3 };
        static const int faults[] = { 0, 0, 1, 1, 7, 7, 7, 3, 1, 0 };
        const int *tab = mask & FAULTS ? faults : mask & COPIES ? copies : plain;
        int op = tab[c.draw(10)];
        if (objs.empty()) op = 0;
        if (building && (op == 4 || op == 5 || op == 6)) op = 1; // keep the originals
        switch (op) {
        case 0: set_source(); break;
        case 1: call(pick(), 1); break;
        case 2: burst(); break;
        case 3: copy(); break;
        case 4: move(); break;
        case 5: destroy(); break;
        case 6: assign(); break;
        case 7: fault(); break;
        }
}

Obj &Harness::pick() {
        // the most recent objects depend on the others
        return *objs[objs.size() - 1 - c.draw(objs.size())];
}

void Harness::set_source() {
        if (desc.srcdom.empty()) return;
        const int s = (int)c.draw(desc.srcdom.size());
        const u32 dom = desc.srcdom[s], now = g.src[s];
        u32 v;
        switch (c.draw(6)) {
        case 0: v = (now + 1) % dom; break;
        case 1: v = oldsrc[s]; break; // back to the previous value
        case 2: v = now; break;
        default: v = pick_code(dom);
        }
        oldsrc[s] = now;
        g.src[s] = v;
        c.sayf([&] { return "s" + S(s) + " := " + S(v) + (v == now ? " (unchanged)" : ""); });
}

void Harness::burst() {
        auto &o = pick();
        u64 n = 2 + c.draw(6);
        if (c.chance(1, 12)) n = 250 + c.draw(20);
        if (c.tier && c.chance(1, 400)) n = 65530 + c.draw(10);
        for (u64 i = 0; i < n && !c.failed; ++i) {
            if (!desc.srcdom.empty() && i % 3 == 2) g.src[i % desc.srcdom.size()] = (u32)((g.src[i % desc.srcdom.size()] + 1) % desc.srcdom[i % desc.srcdom.size()]);
            call(o, i + 1 == n ? 1 : 2);
        }
}

void Harness::call(Obj &o, int verbosity) {
        reset_counts();
        Expect e;
        u32 want = BAD;
        if (o.synced) {
            for (size_t i = 0; i < desc.srcdom.size(); ++i) if (lastvalid && last[i] != g.src[i]) saw_change = true;
            std::copy(std::begin(g.src), std::end(g.src), std::begin(last));
            lastvalid = true;
            want = model_eval(o.model, e).first;
        }
        if (!desc.has_stateful) {
            const u32 p = pure(o.model);
            if (want != BAD && p != want) { fprintf(stderr, "harness error: model disagrees with itself\n"); _exit(77); }
            want = p;
        }
        bool is_void = false;
        const u32 got = o.call(is_void);
        if (verbosity == 1)
            c.sayf([&] {
                std::string s = "call o" + S(o.name) + " (n" + S(o.model.node) + ") -> " + (is_void ? S("void") : S(got)) + ", evaluated:";
                for (auto &n : desc.nodes) for (int k = 0; k < g.rec.evals[n.id]; ++k) s += " n" + S(n.id);
                return s;
            });
        judge(o, e, want, got, is_void);
}

void Harness::judge(Obj &o, const Expect &e, u32 want, u32 got, bool is_void) {
        const auto &n = desc.nodes[o.model.node];
        if (e.total_evals) saw_eval = true;
        if (e.skipped) saw_skip = true;
        if (e.cutoff) saw_cutoff = true;
        if (!original[o.model.node] || original[o.model.node] != &o) saw_copycall = true;
        if (mask & (VALUE | VOIDS)) c.checkf(is_void == (n.dom == 0), [&] { return S("a lazy function returns void although the wrapped function does not, or the other way around"); });
        if ((mask & VALUE) && want != BAD && n.dom) {
            c.checkf(got == want, [&] { return "call of n" + S(n.id) + " returned " + S(got) + ", a fresh evaluation gives " + S(want); });
            c.check(!g.rec.bad, "a wrapped function received a value that no dependency has");
        }
        if (mask & ARGS) {
            c.checkf(g.rec.wrong.empty(), [&] { return "n" + S(g.rec.wrong[0][0]) + " received " + S(g.rec.wrong[0][2]) + " for constant argument " + S(g.rec.wrong[0][1]) + " instead of " + S(g.val[desc.nodes[g.rec.wrong[0][0]].deps[g.rec.wrong[0][1]].idx]); });
            c.check(!g.rec.bad, "a wrapped function received a value that no dependency has");
        }
        if (!o.synced) return;
        for (auto &m : desc.nodes) {
            if ((mask & EVALS) || ((mask & VOIDS) && !m.dom))
                c.checkf(g.rec.evals[m.id] == e.evals[m.id], [&] { return "node n" + S(m.id) + " evaluated " + S(g.rec.evals[m.id]) + " times in a call of n" + S(n.id) + ", expected " + S(e.evals[m.id]); });
            if (mask & CMPS)
                c.checkf(val::hk.cmps[m.id] <= e.cmps[m.id], [&] { return "results of n" + S(m.id) + " compared " + S(val::hk.cmps[m.id]) + " times in a call of n" + S(n.id) + ", expected at most " + S(e.cmps[m.id]); });
        }
        for (size_t s = 0; s < desc.srcdom.size(); ++s) {
            if (mask & CALLS) c.checkf(g.rec.calls[s] == e.calls[s], [&] { return "source function s" + S(s) + " called " + S(g.rec.calls[s]) + " times in a call of n" + S(n.id) + ", expected " + S(e.calls[s]); });
            if (mask & CMPS) c.checkf(val::hk.cmps[100 + s] <= e.cmps[100 + s], [&] { return "results of source function s" + S(s) + " compared " + S(val::hk.cmps[100 + s]) + " times in a call of n" + S(n.id) + ", expected at most " + S(e.cmps[100 + s]); });
        }
        if (mask & CMPS)
            for (size_t v = 0; v < desc.valdom.size(); ++v) c.checkf(!val::hk.cmps[200 + v], [&] { return "constant v" + S(v) + " was compared"; });
        if (mask & COPIES) {
            auto a = g.rec.ordinals, b = e.ordinals;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            c.check(a == b, "the state of a wrapped function did not continue where this lazy function (or the one it was copied from) left it");
        }
        if (mask & VOIDS) {
            auto a = g.rec.effects, b = e.effects;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            c.check(a == b, "a void function ran with other arguments than the current values of its dependencies");
        }
        if (mask & LIFE) c.check(!val::hk.corrupt, "a value was used before its construction or after its destruction");
}

void Harness::copy() {
        if (objs.size() > 12) return call(pick(), 1);
        auto &o = pick();
        const int how = (int)c.draw(5);
        reset_counts();
        auto n = o.copy(how);
        n->name = names++;
        expect_nothing("copying a lazy function");
        c.sayf([&] { return "o" + S(n->name) + " = copy of o" + S(o.name) + " (way " + S(how) + ")"; });
        objs.push_back(std::move(n));
}

void Harness::move() {
        const size_t i = objs.size() - 1 - c.draw(objs.size());
        reset_counts();
        auto n = objs[i]->move();
        expect_nothing("moving a lazy function");
        n->name = names++;
        c.sayf([&] { return "o" + S(n->name) + " = moved from o" + S(objs[i]->name); });
        if (original[n->model.node] == objs[i].get()) original[n->model.node] = nullptr;
        objs[i] = std::move(n);
}

void Harness::destroy() {
        if (objs.size() < 2) return;
        const size_t i = objs.size() - 1 - c.draw(objs.size());
        c.sayf([&] { return "destroy o" + S(objs[i]->name); });
        if (mask & LIFE && !(mask & FAULTS)) {
            reset_counts();
            Expect e;
            const u32 want = model_eval(objs[i]->model, e).first;
            kept.emplace_back(objs[i]->keep(), want);
        }
        if (original[objs[i]->model.node] == objs[i].get()) original[objs[i]->model.node] = nullptr;
        reset_counts();
        objs.erase(objs.begin() + (long)i);
        expect_nothing("destroying a lazy function");
}

void Harness::assign() {
        auto &a = pick();
        for (auto &b : objs) {
            if (b.get() == &a || b->model.node != a.model.node) continue;
            reset_counts();
            if (b->assign(a, false)) {
                expect_nothing("assigning a lazy function");
                c.sayf([&] { return "o" + S(b->name) + " = o" + S(a.name); });
                c.label("assigned");
                return;
            }
        }
        call(a, 1);
}

void Harness::fault() {
        auto &o = pick();
        reset_counts();
        auto &h = val::hk;
        h.kind = (int)c.draw(4);
        h.id = (int)c.draw(1000);
        h.countdown = (u32)c.draw(c.chance(1, 3) ? 40 : 8);
        h.fired = false;
        h.events = 0;
        const u32 want = pure(o.model);
        const int at = (int)h.countdown;
        bool thrown = false, is_void = false;
        u32 got = BAD;
        std::string what;
        h.armed = true;
        try {
            got = o.call(is_void);
        } catch (const val::Boom &b) {
            thrown = true;
            if (h.kind != 0 || b.id != h.id) what = "another exception arrived than the one that was thrown";
        } catch (const val::BoomStd &b) {
            thrown = true;
            if (h.kind != 1 || b.id != h.id) what = "another exception arrived than the one that was thrown";
        } catch (int i) {
            thrown = true;
            if (h.kind != 2 || i != h.id) what = "another exception arrived than the one that was thrown";
        } catch (const std::string &s) {
            thrown = true;
            if (h.kind != 3 || s != "boom" + std::to_string(h.id)) what = "another exception arrived than the one that was thrown";
        } catch (...) {
            thrown = true;
            what = "another exception arrived than the one that was thrown";
        }
        h.armed = false;
        c.sayf([&] { return "call o" + S(o.name) + " (n" + S(o.model.node) + ") with an exception at event " + S(at) + (thrown ? ": thrown" : h.fired ? ": swallowed, -> " + S(got) : ": not reached, -> " + S(got)); });
        if (!what.empty()) c.fail(what);
        c.check(thrown == h.fired, "an exception did not propagate to the caller of the lazy function");
        const auto &n = desc.nodes[o.model.node];
        if (!h.fired) {
            if (n.dom && (mask & VALUE)) c.checkf(got == want, [&] { return "call of n" + S(n.id) + " returned " + S(got) + ", a fresh evaluation gives " + S(want); });
            return;
        }
        saw_fault = true;
        o.synced = false;
        // more failures or changes may follow; sometimes look at once
        if (c.chance(1, 2)) recover(o);
}

void Harness::recover(Obj &o) {
        const auto &n = desc.nodes[o.model.node];
        for (int round = 0; round < 2 && !c.failed; ++round) {
            reset_counts();
            const u32 want = pure(o.model);
            bool is_void;
            const u32 got = o.call(is_void);
            c.sayf([&] { return "call o" + S(o.name) + " again -> " + S(got); });
            if (n.dom && (mask & VALUE)) c.checkf(got == want, [&] { return "after an exception a call of n" + S(n.id) + " returned " + S(got) + ", a fresh evaluation gives " + S(want); });
            saw_recover = true;
            if (round == 1 && !(mask & LIFE))
                for (auto &m : desc.nodes) c.checkf(!g.rec.evals[m.id], [&] { return "n" + S(m.id) + " evaluated again in a second call after an exception although nothing changed"; });
        }
}

u32 fn_eval(int id, const u32 *codes, size_t n, u32 dom) {
    const auto &p = g.fn[id];
    u64 h = p.seed;
    if (p.mode == 1 && n) h = codes[p.pick % n];              // one dependency, ignore the others
    else if (p.mode == 2) { h = 0; for (size_t i = 0; i < n; ++i) h += codes[i]; }
    else for (size_t i = 0; i < n; ++i) h = mix(h, codes[i]);
    if (!dom) return 0;
    return (u32)((p.mode ? h : h >> 7) % std::min<u64>(p.mod, dom));
}

std::pair<u32, bool> model_eval(Inst &x, Expect &e) {
    const auto &n = g.desc->nodes[x.node];
    std::vector<u32> codes;
    bool changed = !x.has;
    size_t kid = 0;
    for (size_t i = 0; i < n.deps.size(); ++i) {
        const auto &d = n.deps[i];
        if (d.kind == DVAL) codes.push_back(g.val[d.idx]);
        else if (d.kind == DSRC) {
            ++e.calls[d.idx];
            u32 v = (g.src[d.idx] + (d.form == STATEFUL ? x.d[i].n++ : 0)) % d.dom;
            if (x.d[i].has) ++e.cmps[100 + d.idx];
            if (!x.d[i].has || x.d[i].cached != v) changed = true;
            x.d[i].has = true;
            x.d[i].cached = v;
            codes.push_back(v);
        } else {
            auto [v, c] = model_eval(x.kids[kid++], e);
            changed |= c;
            codes.push_back(v);
        }
    }
    if (!changed) { ++e.skipped; return { x.cached, false }; }
    ++e.evals[x.node];
    ++e.total_evals;
    ++x.ordinal;
    if (n.ordinal) e.ordinals.push_back({ (u64)x.node, x.ordinal });
    if (!n.dom) {
        u64 h = 1;
        for (auto k : codes) h = mix(h, k);
        e.effects.push_back({ (u64)x.node, h });
    }
    const u32 v = fn_eval(x.node, codes.data(), codes.size(), n.dom);
    if (x.has) ++e.cmps[x.node];
    const bool c = !x.has || x.cached != v;
    if (!c) e.cutoff = true;
    x.has = true;
    x.cached = v;
    return { v, c };
}

u32 pure(const Inst &x) {
    const auto &n = g.desc->nodes[x.node];
    std::vector<u32> codes;
    size_t kid = 0;
    for (const auto &d : n.deps)
        codes.push_back(d.kind == DVAL ? g.val[d.idx] : d.kind == DSRC ? g.src[d.idx] % d.dom : pure(x.kids[kid++]));
    return fn_eval(x.node, codes.data(), codes.size(), n.dom);
}
}
