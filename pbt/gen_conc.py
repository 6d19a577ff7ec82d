"""Generators for C28: actors of one or two types that must not interfere."""
import copy
from .core import Unit

TYPES = ["long", "int", "std::string", "std::vector<int>", "cn::Y", "cn::Y"]


def gen_act(rng):
    kind = rng.choice(["lazy"] * 5 + ["bound", "bound", "ct", "ct", "unc", "rec", "packs", "packs", "reg", "overload"])
    T = lambda: rng.choice(TYPES)
    d = dict(kind=kind, seed=rng.randrange(1 << 30))
    fn = lambda r: dict(f=rng.choice(["Fn", "Fn", "FnS", "FnY"]), r=r)
    if kind == "lazy":
        nodes = []
        for i in range(rng.choice([1, 1, 2, 3, 4])):
            deps = []
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                x = rng.random()
                if i and x < 0.5: deps.append(dict(k="node", i=rng.randrange(i)))
                elif x < 0.8: deps.append(dict(k=rng.choice(["Src", "Src", "SrcS"]), i=rng.randrange(4), t=T()))
                else: deps.append(dict(k="val", t=rng.choice(TYPES + ["cn::E<0>"]), v=rng.randrange(5)))
            nodes.append(dict(fn=fn("void" if rng.random() < 0.12 else T()), deps=deps))
        d["nodes"] = nodes
    elif kind in ("bound", "unc", "ct", "packs"):
        d["els"] = [rng.choice(TYPES + ["cn::E<0>", "cn::E<1>"]) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        d["fn"] = fn(T())
        d["op"] = rng.choice([">>", "<<", "bb"])
        d["as"] = rng.choice(["std::tuple", "pigro::compressed_tuple"])
        d["args"] = [T() for _ in range(rng.choice([0, 1, 2]))]
    elif kind == "rec": d["fn"] = rng.choice(["Rec", "RecS"])
    elif kind == "reg": d.update(fn=fn(rng.choice(["void", "void", T()])), deep=rng.choice([0, 1, 2]), args=[T() for _ in range(rng.choice([0, 1, 2]))])
    else: d.update(a=T(), b="cn::E<2>")
    return d


def act_cpp(d, name):
    k = d["kind"]
    F = lambda f, i: "cn::%s<%d, %s>{}" % (f["f"], i, f["r"])
    s = "struct %s {\n  static auto create() {\n    using namespace pigro;\n" % name
    if k == "lazy":
        for i, n in enumerate(d["nodes"]):
            deps = []
            for j, e in enumerate(n["deps"]):
                if e["k"] == "node": deps.append("n%d" % e["i"])
                elif e["k"] == "val": deps.append("cn::mk<%s>(%d)" % (e["t"], e["v"]))
                else: deps.append("cn::%s<%d, %s>{}" % (e["k"], e["i"], e["t"]))
            s += "    auto n%d = pigro::lazy(%s);\n" % (i, ", ".join([F(n["fn"], i)] + deps))
        n = len(d["nodes"]) - 1
        s += "    return n%d;\n  }\n" % n
        if d["nodes"][n]["fn"]["r"] == "void": s += "  static cn::u64 call(auto &o, cn::u64, cn::u64) { o(); return 0; }\n"
        else: s += "  static cn::u64 call(auto &o, cn::u64, cn::u64) { return cn::dig(o()); }\n"
    elif k in ("bound", "unc"):
        vals = ["cn::mk<%s>(%d)" % (t, i + 2) for i, t in enumerate(d["els"])]
        if k == "unc": s += "    return pigro::uncaptured(%s) >> %s;\n  }\n" % (", ".join(vals), F(d["fn"], 1))
        elif d["op"] == "bb": s += "    return pigro::bind_back(%s);\n  }\n" % ", ".join([F(d["fn"], 1)] + vals)
        else: s += "    return %s<%s>(%s) %s %s;\n  }\n" % (d["as"], ", ".join(d["els"]), ", ".join(vals), d["op"], F(d["fn"], 1))
        s += "  static cn::u64 call(auto &o, cn::u64 x, cn::u64 y) { (void)x; (void)y; return cn::dig(o(%s)); }\n" % ", ".join("cn::mk<%s>(%s)" % (t, "xy"[i % 2]) for i, t in enumerate(d["args"]))
    elif k == "ct":
        s += "    return pigro::compressed_tuple<%s>(%s);\n  }\n" % (", ".join(d["els"]), ", ".join("cn::mk<%s>(%d)" % (t, i + 2) for i, t in enumerate(d["els"])))
        s += "  static cn::u64 call(auto &o, cn::u64 x, cn::u64 y) {\n    cn::u64 h = 0;\n    for (int r = 0; r < 2; ++r) {\n"
        for i, t in enumerate(d["els"]):
            s += "      h = cn::mix(h, cn::dig(pigro::get<%d>(o))); cn::pause(); { auto v = pigro::get<%d>(std::as_const(o)); cn::pause(); h = cn::mix(h, cn::dig(v)); }\n" % (i, i)
            if "E<" not in t: s += "      if (y == %d) { pigro::get<%d>(o) = cn::mk<%s>(x + 1); cn::pause(); }\n" % (i % 3, i, t)
        s += "    }\n    return h;\n  }\n"
    elif k == "rec":
        s += "    return pigro::recursive{cn::%s{}};\n  }\n  static cn::u64 call(auto &o, cn::u64 x, cn::u64 y) { return o(x + y + 1); }\n" % d["fn"]
    elif k == "reg":
        e = F(d["fn"], 1)
        for i in range(d["deep"]): e = "pigro::%s(%s)" % (["regularized_void", "unregularized_void"][i % 2], e)
        s += "    return %s;\n  }\n" % e
        c = "o(%s)" % ", ".join("cn::mk<%s>(%s)" % (t, "xy"[i % 2]) for i, t in enumerate(d["args"]))
        s += "  static cn::u64 call(auto &o, cn::u64 x, cn::u64 y) { (void)x; (void)y; if constexpr (std::is_void_v<decltype(%s)>) { %s; return 0; } else return cn::dig(%s); }\n" % (c, c, c)
    elif k == "overload":
        s += "    return pigro::overload{[y = cn::Y(3)](const %s &a) mutable { const auto h = cn::mix(y.k, cn::dig(a)); cn::here(h); y = cn::Y(h %% 100); return y.k; }, [](cn::E<2>, long x) { cn::here(9); return cn::u64(x) * 7; }};\n  }\n" % d["a"]
        s += "  static cn::u64 call(auto &o, cn::u64 x, cn::u64 y) { return y ? o(cn::mk<%s>(x)) : o(cn::E<2>{}, long(x)); }\n" % d["a"]
    else:
        els = d["els"]
        tup = "std::tuple<%s> t(%s);" % (", ".join(els), ", ".join("cn::mk<%s>(%s + %d)" % (t, "xy"[i % 2], i) for i, t in enumerate(els)))
        s += "    return int(0);\n  }\n  static cn::u64 call(auto &, cn::u64 x, cn::u64 y) {\n    %s cn::u64 h = 0;\n" % tup
        s += "    auto u = pigro::transform(t, [](const auto &e) { cn::pause(); return e; });\n    std::apply([&](const auto &...e) { h = cn::digs(h, e...); }, u);\n"
        s += "    h = cn::mix(h, pigro::any(t, [&](const auto &e) { cn::pause(); return cn::B{ cn::dig(e) == x + 1 }; }));\n"
        s += "    h = cn::mix(h, pigro::any(pigro::transform(t, [&](const auto &e) { cn::pause(); return cn::B{ cn::dig(e) == y }; })));\n"
        s += "    h = cn::mix(h, pigro::apply([](const auto &...e) { cn::pause(); return cn::digs(1, e...); }, t));\n"
        s += "    h = cn::mix(h, pigro::enumerate_pack([](auto &&...i) { cn::pause(); cn::u64 g = 0; ((g = cn::mix(g, i.index * 100 + cn::dig(i.value)), cn::pause()), ...); return g; }, %s));\n" % ", ".join("std::get<%d>(t)" % i for i in range(len(els)))
        s += "    auto r = pigro::to_tuple(t); cn::pause(); std::apply([&](const auto &...e) { h = cn::digs(h, e...); }, r);\n    return h;\n  }\n"
    return s + "};\n"


def unit28(d):
    s = "".join(act_cpp(a, "A%d" % i) for i, a in enumerate(d["acts"]))
    s += "static void run(pbt::Ctx &c) { cn::run<%s>(c); }\n" % ", ".join("A%d" % i for i in range(len(d["acts"])))
    return Unit(d, s)


def gen28(rng, tier, n):
    return [unit28(dict(acts=[gen_act(rng) for _ in range(rng.choice([1, 1, 2]))])) for _ in range(n)]


def shrink28(unit):
    d = unit.desc
    if "acts" not in d: return
    if len(d["acts"]) > 1:
        for a in d["acts"]: yield unit28(dict(acts=[a]))
    for i, a in enumerate(d["acts"]):
        if a["kind"] == "lazy":
            if len(a["nodes"]) > 1:
                h = copy.deepcopy(d); h["acts"][i]["nodes"].pop(); yield unit28(h)
            for j, m in enumerate(a["nodes"]):
                for k in range(len(m["deps"])):
                    if len(m["deps"]) > 1: h = copy.deepcopy(d); del h["acts"][i]["nodes"][j]["deps"][k]; yield unit28(h)
        if len(a.get("els", ())) > 1:
            for k in range(len(a["els"])):
                h = copy.deepcopy(d); del h["acts"][i]["els"][k]; yield unit28(h)
        if a.get("args"):
            h = copy.deepcopy(d); h["acts"][i]["args"] = []; yield unit28(h)
