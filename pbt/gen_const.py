"""Generators for C27: constant expressions."""
import copy
from .core import Unit

INTS = ["int", "long", "short", "char", "unsigned", "bool", "signed char", "unsigned long long", "double", "kc::P", "kc::En"]
PROJ = ["kc::num(x) * 3 + 1", "kc::num(x) > 4", "x", "std::pair(x, 2)", "std::tuple(x)", "kc::P{int(kc::num(x)), 7}", "std::array<long, 2>{kc::num(x), 1}", "char(kc::num(x))"]
PRED = ["kc::num(x) > %d", "kc::num(x) == %d", "(kc::num(x) + %d) %% 3 == 0", "kc::num(x) * %d > 100", "false && %d", "std::optional<int>(kc::num(x) > %d ? 1 : 0) == 1"]


def value(rng, t):
    n = rng.choice([0, 1, 2, 5, 7, 100, rng.randrange(120)])
    return {"kc::P": "kc::P{%d, %d}" % (n, rng.randrange(9)), "kc::En": "kc::En(%d)" % n, "double": "%d.5" % n, "bool": "%s" % ("true" if n % 2 else "false")}.get(t, "%s(%d)" % (t if " " not in t else "kc::C<%s>" % t, n))


def gen_unit27(rng):
    kind = rng.choice(["transform", "transform", "any", "any", "recursive", "recursive", "overload", "overload", "optional", "qualify", "lists", "nested"])
    d = dict(kind=kind, seed=rng.randrange(1 << 30))
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])
    d["els"] = [(t, value(rng, t)) for t in (rng.choice(INTS) for _ in range(n))]
    d["cont"] = rng.choice(["tuple", "tuple", "pair", "array"])
    if d["cont"] == "pair" and n != 2: d["cont"] = "tuple"
    if d["cont"] == "array":
        if n: t = d["els"][0][0]; d["els"] = [(t, value(rng, t)) for _ in range(n)]
        else: d["cont"] = "tuple"
    d["proj"], d["pred"] = rng.choice(PROJ), rng.choice(PRED) % rng.choice([0, 1, 5, 50])
    d["cap"] = rng.random() < 0.5
    d["form"] = rng.choice(["lambda", "functor"])
    if kind == "recursive":
        d["rec"] = [(rng.choice([1, 1, 2, 3]), rng.choice(["a * 3 + 1", "a + n", "a ^ 5", "a"])) for _ in range(rng.choice([1, 2, 2, 3]))]
        d["comb"] = rng.choice(["+", "^", "* 31 +"])
        d["maxn"] = 9 if len(d["rec"]) > 2 else 14
        d["self"] = rng.choice(["const auto &self", "auto &&self", "auto self"])
        d["calls"] = [(rng.randrange(d["maxn"]), rng.randrange(50)) for _ in range(3)]
        d["cat"] = rng.choice(["lv", "clv", "rv", "crv"])
    if kind == "overload":
        ts = INTS + ["const char *", "std::nullptr_t"]
        d["fs"] = rng.sample(ts, rng.choice([1, 2, 3, 5]))
        d["caps"] = [rng.random() < 0.6 for _ in d["fs"]]
        d["gen"] = rng.random() < 0.3
    if kind == "optional":
        d["ops"] = [(rng.choice(["set", "assign", "copy", "reset", "move", "make"]), rng.randrange(3), rng.randrange(3)) for _ in range(rng.choice([1, 3, 6, 10]))]
    if kind == "qualify":
        d["ops"] = [(rng.choice(["like &", "like const", "like &&", "nonconst", "nonconst rv"]), rng.choice(INTS[:5] + ["kc::P"]), rng.randrange(100)) for _ in range(rng.choice([1, 2, 4]))]
    if kind == "lists":
        d["types"] = [rng.choice(["int", "int *", "const int", "kc::P", "void", "double", "int &", "kc::Em"]) for _ in range(rng.choice([0, 1, 3, 6, 10]))]
        d["trait"] = rng.choice(["std::is_integral", "std::is_class", "std::is_empty", "std::is_pointer", "std::is_const"])
        d["neg"] = rng.random() < 0.4
    return d


def fun(d, body, name, param="const auto &x"):
    """a constant function object, as lambda or functor"""
    if d["form"] == "lambda":
        return "constexpr auto %s = [%s](%s) { %sreturn %s; };\n" % (name, "k = 4" if d["cap"] else "", param, "(void)k; " if d["cap"] else "", body)
    return "struct S_%s {%s constexpr auto operator()(%s) const { return %s; } };\nconstexpr S_%s %s{};\n" % (name, " int k = 4;" if d["cap"] else "", param, body, name, name)


def unit27(d):
    k = d["kind"]
    s, b = "", ""
    vals = ", ".join(v for _, v in d["els"])
    types = ", ".join(t for t, _ in d["els"])
    n = len(d["els"])
    T = {"tuple": "std::tuple<%s>" % types, "pair": "std::pair<%s>" % types, "array": "std::array<%s, %d>" % (d["els"][0][0] if n else "int", n)}[d["cont"]]
    decl = "constexpr %s t%s;\n" % (T, ("{ { %s } }" if d["cont"] == "array" else "{ %s }") % vals if n else "{}")
    if k in ("transform", "nested"):
        s += decl + fun(d, d["proj"], "f") + "constexpr auto r = pigro::transform(t, f);\n"
        b += "  auto v = t; kc::hide(v); const auto q = pigro::transform(v, f); c.item(%s, \"transform\"); CK(kc::same<decltype(q), decltype(r)>); CK(kc::equal(q, r));\n" % ("true" if n > 1 else "false")
        b += "  CK(std::tuple_size_v<std::remove_cvref_t<decltype(r)>> == %d);\n" % n
        for i in range(n): b += "  CK(kc::equal(std::get<%d>(r), f(std::get<%d>(v))));\n" % (i, i)
        if k == "nested":
            s += fun(d, "true && sizeof(x) > 0", "g") + "constexpr bool a = pigro::any(pigro::transform(r, g));\n"
            b += "  CK(a == %s); CK(pigro::any(pigro::transform(q, g)) == a);\n" % ("true" if n else "false")
    elif k == "any":
        s += decl + fun(d, d["pred"], "f") + "constexpr bool r = pigro::any(t, f);\n"
        b += "  auto v = t; kc::hide(v); const bool q = pigro::any(v, f); c.item(%s, \"any\"); CK(q == r); bool w = false; std::apply([&](const auto &...e) { ((w |= bool(f(e))), ...); }, v); CK(w == r);\n" % ("true" if n > 1 else "false")
        s += "constexpr bool i = pigro::any(std::tuple{%s});\n" % ", ".join("bool(kc::num(%s) %% 2)" % v for _, v in d["els"])
        b += "  CK(i == (false%s));\n" % "".join(" || bool(kc::num(%s) %% 2)" % v for _, v in d["els"])
    elif k == "recursive":
        def body(call):
            x = "std::uint64_t r = n * 7 + a;\n"
            for dec, xf in d["rec"]: x += "    r = r %s %s;\n" % (d["comb"], call % ("n < %d ? 0 : n - %d, %s" % (dec, dec, xf)))
            return "if (n == 0) return std::uint64_t(a ^ 0x51);\n    %s    return r;" % x
        P = "std::uint64_t n, std::uint64_t a"
        s += "constexpr std::uint64_t plain(%s) {\n    %s\n}\n" % (P, body("plain(%s)"))
        if d["form"] == "lambda": s += "constexpr auto f = pigro::recursive{[%s](%s, %s) -> std::uint64_t {\n    %s\n}};\n" % ("k = 4" if d["cap"] else "", d["self"], P, body("self(%s)"))
        else: s += "struct F { constexpr std::uint64_t operator()(%s, %s) const {\n    %s\n} };\nconstexpr pigro::recursive<F> f{};\n" % (d["self"], P, body("self(%s)"))
        for i, (x, a) in enumerate(d["calls"]):
            e = {"lv": "[] { auto g = f; return g(%d, %d); }()", "clv": "f(%d, %d)", "rv": "std::remove_const_t<decltype(f)>(f)(%d, %d)", "crv": "decltype(f)(f)(%d, %d)"}[d["cat"]] % (x, a)
            s += "constexpr auto r%d = %s;\n" % (i, e)
            b += "  { std::uint64_t x = %d, y = %d; kc::hide(x); kc::hide(y); c.item(%s, \"recursion\"); auto g = f; CK(r%d == plain(x, y)); CK(f(x, y) == r%d); CK(g(x, y) == r%d); }\n" % (x, a, "true" if x > 2 else "false", i, i, i)
    elif k == "overload":
        fs = []
        for i, t in enumerate(d["fs"]): fs.append("[%s](%s) { return %s; }" % ("k = %d" % (i + 10) if d["caps"][i] else "", t, "k * 100" if d["caps"][i] else "%d" % i))
        if d["gen"]: fs.append("[k = 5](auto &&...x) requires(sizeof...(x) == 2) { return 77; }")
        s += "constexpr auto o = pigro::overload{%s};\n" % ", ".join(fs)
        for i, t in enumerate(d["fs"]):
            a = {"const char *": '"x"', "std::nullptr_t": "nullptr"}.get(t) or "%s{}" % (t if " " not in t else "kc::C<%s>" % t)
            if t == "const char *": a = "kc::text"
            s += "constexpr auto r%d = o(%s);\n" % (i, a)
            b += "  { auto v = %s; kc::hide(v); auto p = o; c.item(true, \"overload\"); CK(r%d == %d); CK(p(v) == r%d); CK(o(v) == r%d); }\n" % (a, i, (i + 10) * 100 if d["caps"][i] else i, i, i)
        if d["gen"]: s += "constexpr auto g = o(1, 'c');\n"; b += "  CK(g == 77);\n"
    elif k == "optional":
        O = "std::optional<pigro::regular_void>"
        s += "template<class O, class V>\nconstexpr std::array<int, 12> history() {\n  O o[3]; O e; std::array<int, 12> r{};\n"
        for op, i, j in d["ops"]:
            s += "  " + {"set": "o[%d] = V{};" % i, "assign": "o[%d] = o[%d];" % (i, j), "copy": "{ O x = o[%d]; o[%d] = x; }" % (j, i), "reset": "o[%d] = e;" % i, "move": "o[%d] = O(o[%d]);" % (i, j), "make": "o[%d] = O(V{});" % i}[op] + "\n"
        s += "  for (int i = 0; i < 3; ++i) { r[i] = bool(o[i]); r[3 + i] = o[i] == o[(i + 1) % 3]; r[6 + i] = o[i] != o[(i + 1) % 3]; if (o[i]) r[9 + i] = *o[i] == V{}; }\n  return r;\n}\n"
        s += "constexpr auto r = history<%s, pigro::regular_void>();\nconstexpr %s made = pigro::regular_void{};\nconstexpr bool less = pigro::regular_void{} < pigro::regular_void{} || pigro::regular_void{} != pigro::regular_void{};\n" % (O, O)
        b += "  c.item(%s, \"optional\"); CK(r == (history<%s, pigro::regular_void>())); CK(r == (history<std::optional<std::monostate>, std::monostate>())); CK(bool(made)); CK(!less);\n" % ("true" if len(d["ops"]) > 2 else "false", O)
    elif k == "qualify":
        for i, (op, t, v) in enumerate(d["ops"]):
            x = "kc::P{%d, 1}" % v if t == "kc::P" else "%s(%d)" % (t, v)
            m = "kc::P{9, 9}" if t == "kc::P" else "%s(9)" % t
            e = {"like &": "pigro::forward_like<int &>(x) = %s;" % m, "like const": "if (!kc::same<decltype(pigro::forward_like<const char &>(x)), const %s &>) return %s{}; y = pigro::forward_like<const char &>(x); x = y;" % (t, t),
                 "like &&": "y = pigro::forward_like<int &&>(std::move(x)); x = y;", "nonconst": "pigro::as_nonconst(x) = %s;" % m, "nonconst rv": "y = pigro::as_nonconst(std::move(x)); x = y;"}[op]
            s += "constexpr %s f%d(%s x) {\n  %s y = x; %s\n  return x;\n}\nconstexpr auto r%d = f%d(%s);\n" % (t, i, t, t, e, i, i, x)
            want = m if op in ("like &", "nonconst") else x
            b += "  { %s v = %s; kc::hide(v); c.item(true, \"qualify\"); CK(kc::equal(r%d, %s(%s))); CK(kc::equal(f%d(v), r%d)); }\n" % (t, x, i, t, want, i, i)
    else:
        L = "pigro::typelist<%s>" % ", ".join(d["types"])
        P = "%spigro::predicate<%s>" % ("!" if d["neg"] else "", d["trait"])
        s += "constexpr auto l = %s{};\nconstexpr auto p = pigro::partition(l, %s);\nconstexpr auto q = pigro::concat(pigro::filter_if(l, %s), pigro::filter_if(l, !%s));\nconstexpr bool r = p == q;\n" % (L, P, P, P)
        s += "constexpr auto pr = %s;\n" % P
        b += "  c.item(%s, \"lists\"); CK(r);\n" % ("true" if len(d["types"]) > 1 else "false")
        for i, t in enumerate(dict.fromkeys(d["types"])):
            b += "  { constexpr bool y = pr(pigro::type_c<%s>), z = (!pr)(pigro::type_c<%s>); CK(y == %s%s<%s>::value); CK(z != y); }\n" % (t, t, "!" if d["neg"] else "", d["trait"], t)
    return Unit(d, s + "static void run(pbt::Ctx &c) {\n" + b + "}\n")


def gen27(rng, tier, n):
    return [unit27(gen_unit27(rng)) for _ in range(n)]


def shrink27(unit):
    d = unit.desc
    if "kind" not in d: return
    for key in ("els", "ops", "types", "calls", "rec"):
        if d.get(key) and d["cont"] == "tuple" and len(d[key]) > (key == "rec"):
            for i in range(len(d[key])):
                h = copy.deepcopy(d); del h[key][i]; yield unit27(h)
    if d.get("fs"):
        for i in range(len(d["fs"])):
            if len(d["fs"]) > 1: h = copy.deepcopy(d); del h["fs"][i]; del h["caps"][i]; yield unit27(h)
    if d["cap"]: h = copy.deepcopy(d); h["cap"] = False; yield unit27(h)
