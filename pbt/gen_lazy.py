"""Generator of dependency graphs of lazy functions (C01-C09, C26)."""
import copy, random
from .core import Unit, numbers_up_to

SCALARS = ["bool", "char", "signed char", "short", "int", "unsigned", "long", "unsigned long long", "float", "double", "val::Color", "int*", "const char*"]
CLASSES = ["std::string", "std::vector<int>", "std::vector<std::string>", "std::pair<int,std::string>", "std::tuple<int,double,char>", "std::tuple<std::string>",
           "std::pair<int,int>", "std::tuple<>", "std::reference_wrapper<int>", "std::string_view", "std::nullptr_t", "std::array<int,3>", "std::optional<int>", "std::optional<std::string>", "std::optional<bool>",
           "std::variant<int,std::string>", "std::map<int,std::string>", "std::shared_ptr<int>", "std::optional<std::optional<int>>", "std::tuple<std::pair<int,int>>",
           "val::Pod", "val::Big", "val::Dup", "val::Odd", "val::Wide", "val::Empty", "val::Empty2", "val::FinalEmpty", "val::NoDefault", "val::Greedy", "val::Trk"]
CONSTANTS = ["val::NoCmp", "val::DelCmp", "val::NeedsArg"]
MASKS = dict(VALUE=1, EVALS=2, CALLS=4, CMPS=8, FAULTS=16, COPIES=32, VOIDS=64, ARGS=128, LIFE=256)


def profile(pid):
    P = dict(types=SCALARS * 2 + ["int"] * 6 + ["std::string"] * 4 + CLASSES, void=0.06, val=0.2, src=0.45, maxnodes=7, maxdeps=6, anon=0.25,
             stateful=0.0, fn_forms=[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9], src_forms=[0, 0, 0, 1, 2, 3, 5, 6, 7, 8, 9], clobber=0.3, mask=["VALUE"])
    if pid == "C02": P.update(mask=["EVALS"], val=0.12)
    if pid == "C03": P.update(mask=["CALLS"], src=0.6, maxdeps=9, val=0.1)
    if pid == "C04": P.update(mask=["CMPS"], types=["val::Spy"] * 6 + ["int", "std::string"], val=0.15)
    if pid == "C05": P.update(mask=["FAULTS", "VALUE"], types=["val::Trk"] * 8 + ["int"] * 3 + ["std::string", "bool", "std::optional<int>", "std::pair<int,std::string>"], void=0.1)
    if pid == "C06": P.update(mask=["COPIES", "VALUE", "EVALS"], stateful=0.35, fn_forms=[0, 1, 2, 3, 4, 5, 5, 5, 5, 7, 8], src_forms=[0, 0, 1, 2, 3, 6, 7], maxnodes=5, maxdeps=4)
    if pid == "C07": P.update(mask=["VOIDS"], void=0.55, val=0.15)
    if pid == "C09": P.update(mask=["ARGS", "EVALS"], val=0.65, src=0.2, clobber=0.8, maxdeps=8, maxnodes=4,
                              types=SCALARS * 2 + CLASSES * 2 + ["std::string", "int"] * 3)
    if pid == "C26": P.update(mask=["LIFE", "COPIES", "VALUE"], types=["val::Trk"] * 8 + ["std::string"] * 3 + CLASSES, fn_forms=[0, 0, 1, 2, 3, 4, 5, 7, 8],
                              src_forms=[0, 0, 1, 2, 3, 6, 7], stateful=0.1, maxnodes=5, maxdeps=4, clobber=0.6)
    return P


def tree(nodes, i):
    return 1 + sum(tree(nodes, d["i"]) if d["k"] == "node" else 1 for d in nodes[i]["deps"])


def graph(rng, P, shape):
    """shape: random, chain (deep), wide (many dependencies), diamond (shared)."""
    srcs, vals, nodes = [], [], []
    own = shape in ("wide", "long") and rng.random() < (0.7 if shape == "wide" else 1) # each its own variable
    for _ in range(0 if own else rng.randint(1, 4)):
        srcs.append(dict(t=rng.choice(P["types"])))
    n = {"random": rng.randint(1, P["maxnodes"]), "chain": rng.randint(4, 9), "wide": rng.randint(1, 2), "long": 1, "diamond": rng.randint(3, 5)}[shape]
    for i in range(n):
        nd = {"random": rng.choice([0, 1, 1, 2, 2, 3, 3, 4, rng.randint(0, P["maxdeps"])]), "chain": rng.choice([1, 1, 2, 3]),
              "wide": rng.choice([7, 8, 9, 10, 12, 16, 17, 18, 24, 33]), "long": rng.choice([65, 66, 70, 80]), "diamond": 2 if i else 1}[shape]
        void = rng.random() < P["void"]
        node = dict(r="void" if void else rng.choice(P["types"]), deps=[], named=True, form=0)
        for j in range(nd):
            x = rng.random()
            if shape == "chain" and i and j == 0:
                kind = "prev"
            elif shape == "diamond" and i:
                kind = "prev" if rng.random() < 0.8 else "node"
            elif x < P["val"]:
                kind = "val"
            elif x < P["val"] + P["src"] or not i:
                kind = "src"
            else:
                kind = "node"
            if kind in ("prev", "node"):
                t = i - 1 if kind == "prev" else rng.randrange(i)
                nodes.append(node)
                node["deps"].append(dict(k="node", i=t))
                big = tree(nodes, len(nodes) - 1) > 26
                nodes.pop()
                if not big:
                    continue
                node["deps"].pop()
                kind = "src"
            if kind == "val":
                node["deps"].append(dict(k="val", i=len(vals), how=rng.choice(["v", "c", "t"]), clobber=rng.random() < P["clobber"]))
                vals.append(dict(t=rng.choice(P["types"] if rng.random() < 0.8 or P["types"][0].startswith("val::Spy") else CONSTANTS)))
            else:
                f = 4 if rng.random() < P["stateful"] else rng.choice(P["src_forms"])
                if not srcs or (own and rng.random() < 0.95): srcs.append(dict(t=rng.choice(P["types"][:1] + ["int"] * 4 if nd > 12 else P["types"])))
                if own and len(srcs) > 1 and rng.random() < 0.95:
                    node["deps"].append(dict(k="src", i=len(srcs) - 1, form=f))
                    continue
                node["deps"].append(dict(k="src", i=rng.randrange(len(srcs)), form=f))
        node["form"] = rng.choice(P["fn_forms"])
        nodes.append(node)
    used = [sum(1 for m in nodes for d in m["deps"] if d["k"] == "node" and d["i"] == i) for i in range(n)]
    for i in range(n - 1):
        if used[i] == 1 and rng.random() < P["anon"]:
            nodes[i]["named"] = False
    g = dict(srcs=srcs, vals=vals, nodes=nodes)
    return sane(g)


def sane(g):
    """forms with spelled-out parameter types cannot receive void dependencies"""
    for m in g["nodes"]:
        if m["form"] in (2, 3, 4) and any(d["k"] == "node" and g["nodes"][d["i"]]["r"] == "void" for d in m["deps"]):
            m["form"] = 0
    return g


def dep_type(g, d):
    return g["srcs"][d["i"]]["t"] if d["k"] == "src" else g["vals"][d["i"]]["t"] if d["k"] == "val" else g["nodes"][d["i"]]["r"]


def fn_expr(g, i):
    m = g["nodes"][i]
    r, f = m["r"], m["form"]
    a = "".join(", " + dep_type(g, d) for d in m["deps"])
    if f == 9: return "std::ref(lz::stat<lz::Fn0<%d, %s>>)" % (i, r)
    return {2: "lz::fn2<%d, %s%s>()", 3: "&lz::fn3<%d, %s%s>", 4: "lz::fn4<%d, %s%s>()"}.get(f, "") % (i, r, a) if f in (2, 3, 4) else "lz::Fn%d<%d, %s>{}" % (f, i, r)


def src_expr(g, d):
    s, t, f = d["i"], g["srcs"][d["i"]]["t"], d["form"]
    if f == 1: return "lz::src1<%d, %s>()" % (s, t)
    if f == 2: return "&lz::src2<%d, %s>" % (s, t)
    if f == 3: return "lz::src3<%d, %s>()" % (s, t)
    if f == 8: return "std::ref(lz::stat<lz::Src0<%d, %s>>)" % (s, t)
    return "lz::Src%d<%d, %s>{}" % (f, s, t)


def expr(g, i):
    m = g["nodes"][i]
    args = [fn_expr(g, i)]
    for d in m["deps"]:
        if d["k"] == "val":
            v = "v%d" % d["i"]
            args.append({"v": v, "c": "std::as_const(%s)" % v, "t": "%s(%s)" % ("T%d" % d["i"], v)}[d["how"]])
        elif d["k"] == "src":
            args.append(src_expr(g, d))
        else:
            args.append("o%d" % d["i"] if g["nodes"][d["i"]]["named"] else expr(g, d["i"]))
    return "pigro::lazy(%s)" % ", ".join(args)


def vals_of(g, i):
    r = []
    for d in g["nodes"][i]["deps"]:
        if d["k"] == "val": r.append(d)
        elif d["k"] == "node" and not g["nodes"][d["i"]]["named"]: r += vals_of(g, d["i"])
    return r


def emit(g, mask):
    D = "val::D<%s>()"
    nodes = []
    for i, m in enumerate(g["nodes"]):
        deps = []
        for d in m["deps"]:
            if d["k"] == "val": deps.append("{lz::DVAL, %d, 0, %s}" % (d["i"], D % g["vals"][d["i"]]["t"]))
            elif d["k"] == "src": deps.append("{lz::DSRC, %d, %d, %s}" % (d["i"], d["form"], D % g["srcs"][d["i"]]["t"]))
            else: deps.append("{lz::DNODE, %d, 0, 0}" % d["i"])
        nodes.append("lz::Node{%d, {%s}, %s, %s, %s}" % (i, ", ".join(deps), "0u" if m["r"] == "void" else D % m["r"],
                     "true" if m["named"] else "false", "true" if m["form"] == 5 else "false"))
    st = any(d["k"] == "src" and d["form"] == 4 for m in g["nodes"] for d in m["deps"])
    s = "static const lz::Desc &desc() {\n  static const lz::Desc d = [] {\n    lz::Desc d;\n"
    s += "    d.srcdom = {%s};\n    d.valdom = {%s};\n" % (", ".join(D % x["t"] for x in g["srcs"]), ", ".join(D % x["t"] for x in g["vals"]))
    s += "".join("    d.nodes.push_back(%s);\n" % n for n in nodes)
    s += "    d.has_stateful = %s;\n    return d;\n  }();\n  return d;\n}\n" % ("true" if st else "false")
    s += "static void body(pbt::Ctx &c) {\n  lz::Harness h(c, desc(), %d);\n" % sum(MASKS[x] for x in mask)
    for i, v in enumerate(g["vals"]):
        s += "  using T%d = %s; T%d v%d = h.constant<T%d>(%d);\n" % (i, v["t"], i, i, i, i)
    s += "  h.reset_counts();\n"
    rich = "true" if "COPIES" in mask else "false"
    for i, m in enumerate(g["nodes"]):
        if m["named"]:
            s += "  [[maybe_unused]] auto &o%d = h.define<%d, %s>(%s);\n" % (i, i, rich, expr(g, i))
            for d in vals_of(g, i):
                if d["clobber"]: s += "  h.clobber(v%d);\n" % d["i"]
            s += "  if (!c.failed) h.some_ops();\n"
    s += "  if (!c.failed) h.history(); else h.finish();\n}\n"
    s += "static void run(pbt::Ctx &c) {\n  desc(); val::table<val::Trk>();\n  body(c);\n  val::hk.armed = false;\n}\n"
    return s


def valid(g, P):
    if not any(m["named"] for m in g["nodes"]): return False
    if "CMPS" in P["mask"] and not any(m["r"] == "val::Spy" for m in g["nodes"]): return False
    if "VOIDS" in P["mask"] and not any(m["r"] == "void" for m in g["nodes"]): return False
    if "ARGS" in P["mask"] and not g["vals"]: return False
    if any(d["k"] == "src" for m in g["nodes"] for d in m["deps"]): return True
    return "ARGS" in P["mask"] or "VOIDS" in P["mask"]


def make_unit(g, P):
    return Unit(g, emit(g, P["mask"]))


def generator(pid):
    P = profile(pid)

    def generate(rng, tier, n):
        out = []
        shapes = ["random"] * 6 + ["chain", "wide", "diamond", "random"]
        while len(out) < n:
            g = graph(rng, P, "long" if len(out) == 0 and pid in ("C01", "C02", "C03") else shapes[len(out) % len(shapes)])
            if valid(g, P):
                out.append(make_unit(g, P))
        return out
    return generate


def renumber(g):
    """drops unused sources and constants"""
    for k, name in (("val", "vals"), ("src", "srcs")):
        used = sorted({d["i"] for m in g["nodes"] for d in m["deps"] if d["k"] == k})
        if k == "src" and not used: used = [0]
        mp = {o: n for n, o in enumerate(used)}
        for m in g["nodes"]:
            for d in m["deps"]:
                if d["k"] == k: d["i"] = mp[d["i"]]
        g[name] = [g[name][o] for o in used]
    return g


def shrinker(pid):
    P = profile(pid)

    def shrink(unit):
        g = unit.desc
        if "nodes" not in g: return
        n = len(g["nodes"])
        for i in reversed(range(n)):  # drop a node that nobody needs, or replace it
            h = copy.deepcopy(g)
            if n > 1:
                for m in h["nodes"]:
                    m["deps"] = [d for d in m["deps"] if not (d["k"] == "node" and d["i"] == i)]
                    for d in m["deps"]:
                        if d["k"] == "node" and d["i"] > i: d["i"] -= 1
                # what only an anonymous, dropped node used is dropped as well
                del h["nodes"][i]
                for q, m in enumerate(h["nodes"]):
                    if not m["named"] and not any(d["k"] == "node" and d["i"] == q for x in h["nodes"] for d in x["deps"]): m["named"] = True
                if valid(h, P): yield make_unit(sane(renumber(h)), P)
        for i in range(n):
            for j in range(len(g["nodes"][i]["deps"])):
                h = copy.deepcopy(g)
                del h["nodes"][i]["deps"][j]
                for q, m in enumerate(h["nodes"]):
                    if not m["named"] and not any(d["k"] == "node" and d["i"] == q for x in h["nodes"] for d in x["deps"]): m["named"] = True
                if valid(h, P): yield make_unit(sane(renumber(h)), P)
        for i in range(n):
            if g["nodes"][i]["form"] or g["nodes"][i]["r"] not in ("int", "void", "val::Spy"):
                h = copy.deepcopy(g)
                h["nodes"][i]["form"] = 0
                if h["nodes"][i]["r"] not in ("int", "void", "val::Spy"): h["nodes"][i]["r"] = "int"
                if valid(h, P): yield make_unit(h, P)
        for k in ("srcs", "vals"):
            for i, x in enumerate(g[k]):
                if x["t"] not in ("int", "val::Spy"):
                    h = copy.deepcopy(g)
                    h[k][i]["t"] = "int"
                    yield make_unit(h, P)
    return shrink


# ---- C08: footprint ---------------------------------------------------------
ALIGNED = {1: ["bool", "char", "signed char", "val::Chars", "val::FinalEmpty"], 4: ["int", "unsigned", "float", "std::array<int,3>", "std::pair<int,int>"],
           8: ["long", "double", "int*", "std::string", "std::vector<int>", "std::shared_ptr<int>", "val::Pod", "std::map<int,std::string>", "std::pair<int,std::string>"]}
EMPTY8 = ["val::Empty", "val::Empty2", "std::less<>", "std::monostate"]
FNS8 = ["gen", "gen", "gen", "same", "lambda", "state", "state", "final", "two"]


def graph8(rng):
    a = rng.choice([1, 1, 4, 4, 8, 8, 0])
    types = ALIGNED.get(a) or [t for l in ALIGNED.values() for t in l] + ["val::Wide", "val::Big"]
    srcs = rng.random() < 0.6
    nodes = []
    for i in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
        deps = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, rng.randint(0, 8)])):
            x = rng.random()
            if x < 0.35 and i: deps.append(dict(k="node", i=rng.randrange(i)))
            elif x < 0.6: deps.append(dict(k="val", t=rng.choice(types)))
            elif x < 0.8 or not srcs: deps.append(dict(k="val", t=rng.choice(EMPTY8)))
            else: deps.append(dict(k="src", t=rng.choice(types), st=rng.choice([None, None, rng.choice(types)])))
        nodes.append(dict(r="void" if rng.random() < 0.3 else rng.choice(types), fn=rng.choice(FNS8), st=rng.choice(types), st2=rng.choice(types), deps=deps))
    return dict(align=a, nodes=nodes)


def make8(g):
    s = """template<class R, int I> struct Gen { template<class... A> R operator()(const A &...) const { if constexpr (!std::is_void_v<R>) return val::make<R>(0); } };
template<class R> struct Same { template<class... A> R operator()(const A &...) const { if constexpr (!std::is_void_v<R>) return val::make<R>(0); } };
template<class R, class S> struct State { S s; template<class... A> R operator()(const A &...) { if constexpr (!std::is_void_v<R>) return val::make<R>(0); } };
template<class R, class S, class S2> struct State2 { S s; S2 s2; template<class... A> R operator()(const A &...) const { if constexpr (!std::is_void_v<R>) return val::make<R>(0); } };
template<class R> struct Final final { template<class... A> R operator()(const A &...) const { if constexpr (!std::is_void_v<R>) return val::make<R>(0); } };
template<class R, int I> struct Src { R operator()() const { return val::make<R>(0); } };
template<class R, class S, int I> struct SrcState { S s; R operator()() const { return val::make<R>(0); } };
template<class T> constexpr size_t stored() { return std::is_empty_v<T> && !std::is_final_v<T> ? 0 : sizeof(T); }
struct Parts { size_t sum = 0, align = 1; std::vector<std::pair<size_t, size_t>> p; void add(size_t s, size_t a) { if (s) { p.push_back({ s, a }); align = std::max(align, a); } } template<class T> void part() { add(stored<T>(), alignof(T)); }
  size_t bound() const { size_t r = 0; for (auto [s, a] : p) r += (s + align - 1) / align * align; return std::max<size_t>(r, 1); } };
"""
    b = ""
    for i, m in enumerate(g["nodes"]):
        r = "std::type_identity_t<%s>" % m["r"]
        st, st2 = "std::type_identity_t<%s>" % m["st"], "std::type_identity_t<%s>" % m["st2"]
        if m["fn"] == "lambda": s += "inline auto l%d = [](const auto &...) -> %s { return %s::operator()(); };\n".replace("%s::operator()()", "Gen<%s, 99>{}()") % (i, r, r); f = "decltype(l%d)" % i
        else: f = {"gen": "Gen<%s, %d>" % (r, i), "same": "Same<%s>" % r, "state": "State<%s, %s>" % (r, st), "two": "State2<%s, %s, %s>" % (r, st, st2), "final": "Final<%s>" % r}[m["fn"]]
        args, parts = [f], ""
        for j, d in enumerate(m["deps"]):
            if d["k"] == "node": args.append("O%d" % d["i"]); parts += " p.part<O%d>();" % d["i"]
            elif d["k"] == "val":
                t = "std::type_identity_t<%s>" % d["t"]
                args.append(t); parts += " p.part<%s>();" % t
            else:
                t = "std::type_identity_t<%s>" % d["t"]
                q = "SrcState<%s, std::type_identity_t<%s>, %d>" % (t, d["st"], i * 10 + j) if d["st"] else "Src<%s, %d>" % (t, i * 10 + j)
                args.append(q)
                parts += " p.part<%s>(); p.part<std::optional<%s>>();" % (q, t)
        s += "using F%d = %s;\nusing O%d = decltype(pigro::lazy(%s));\n" % (i, f, i, ", ".join("std::declval<%s>()" % a for a in args))
        b += "  { Parts p; %s p.part<F%d>();%s\n" % ("p.add(1, 1);" if m["r"] == "void" else "p.part<std::optional<%s>>();" % r, i, parts)
        b += "    c.item(%s, \"lazy function %d: %s, %s, %d dependencies\"); c.sayf([&] { return \"size \" + pbt::S(sizeof(O%d)) + \", bound \" + pbt::S(p.bound()); });\n" % ("true" if m["deps"] else "false", i, m["r"], m["fn"], len(m["deps"]), i)
        b += "    c.checkf(sizeof(O%d) <= p.bound(), [&] { return \"a lazy function takes \" + pbt::S(sizeof(O%d)) + \" bytes, its cache and its stateful parts take \" + pbt::S(p.bound()); });\n" % (i, i)
        b += "    c.checkf(alignof(O%d) <= p.align, [&] { return \"a lazy function has alignment \" + pbt::S(alignof(O%d)) + \", its parts need \" + pbt::S(p.align); }); }\n" % (i, i)
    return Unit(g, s + "static void run(pbt::Ctx &c) {\n" + b + "}\n")


def gen8(rng, tier, n):
    return [make8(graph8(rng)) for _ in range(n)]


def shrink8(unit):
    g = unit.desc
    if "nodes" not in g: return
    n = len(g["nodes"])
    for i in reversed(range(n)):
        if any(d["k"] == "node" and d["i"] == i for m in g["nodes"] for d in m["deps"]): continue
        if n > 1:
            h = copy.deepcopy(g); del h["nodes"][i]
            for m in h["nodes"]:
                for d in m["deps"]:
                    if d["k"] == "node" and d["i"] > i: d["i"] -= 1
            yield make8(h)
    for i in range(n):
        for j in range(len(g["nodes"][i]["deps"])):
            h = copy.deepcopy(g); del h["nodes"][i]["deps"][j]; yield make8(h)
        if g["nodes"][i]["fn"] != "gen":
            h = copy.deepcopy(g); h["nodes"][i]["fn"] = "gen"; yield make8(h)
