"""Generators for compressed tuples (C10, C11, C12)."""
import copy
from .core import Unit, numbers_up_to

VALUES = ["bool", "char", "signed char", "short", "int", "unsigned", "long", "unsigned long long", "float", "double", "val::Color", "int*", "const char*",
          "std::string", "std::vector<int>", "std::pair<int,std::string>", "std::tuple<int,double,char>", "std::tuple<std::string>", "std::pair<int,int>", "std::array<int,3>",
          "std::optional<int>", "std::variant<int,std::string>", "std::map<int,std::string>", "std::shared_ptr<int>", "std::tuple<std::pair<int,int>>",
          "val::Pod", "val::Big", "val::Dup", "val::Odd", "val::Wide", "val::FinalEmpty", "val::NoDefault", "val::Greedy", "val::Trk", "mx::Callable", "mx::Amp", "mx::Final", "mx::WithEmpty",
          "mx::DerivedEmpty", "mx::Init", "mx::Agg", "std::add_pointer_t<int(int)>", "std::function<int(int)>",
          "std::reference_wrapper<int>", "std::string_view", "std::nullptr_t", "std::byte", "long double"]
COMMON = ["int"] * 8 + ["std::string"] * 5 + ["double", "char", "long"] * 2
EMPTIES = ["val::Empty", "val::Empty2", "mx::Em<0>", "mx::Em<1>", "mx::EmDerived<0>", "mx::EmNoDefault", "mx::EmAmp", "mx::EmCall", "mx::EmGreedy", "std::less<>",
           "std::monostate", "std::allocator<int>", "std::true_type"]
NODEFAULT = {"val::NoDefault", "std::reference_wrapper<int>", "mx::EmNoDefault"}
MOVEONLY = {"std::unique_ptr<int>"}
CONV = {"std::string": '"text"', "long": "(short)3", "double": "2.5f", "std::function<int(int)>": "[](int x) { return x + 3; }", "std::optional<int>": "7", "int": "'a'", "std::shared_ptr<int>": "nullptr"}


def is_ct(t):
    return t.startswith("pigro::compressed_tuple<")


def value_type(rng, depth=0, moveonly=0.03):
    x = rng.random()
    if x < 0.22: return rng.choice(EMPTIES)
    if x < 0.22 + moveonly and not depth: return "std::unique_ptr<int>"
    if x < 0.32 and depth < 2:
        return "pigro::compressed_tuple<%s>" % ", ".join(value_type(rng, depth + 1) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))
    return rng.choice(COMMON if x < 0.6 else VALUES)


def length(rng, hi=12):
    hints = numbers_up_to(16)
    x = rng.random()
    if x < 0.1 and hints: return min(rng.choice(hints), hi + 4)
    if x < 0.7: return rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])
    return rng.randint(5, hi)


def elements(rng, refs=0.2, hi=12):
    """-> list of {t, k: v|r|c, x: ext index}, list of external variable types"""
    els, ext = [], []
    same = rng.random() < 0.2 and value_type(rng, 2)
    for _ in range(length(rng, hi)):
        if rng.random() < refs:
            cand = [j for j in range(len(ext))]
            if cand and rng.random() < 0.3:
                j = rng.choice(cand)
            else:
                t = rng.choice(COMMON + VALUES)
                ext.append(t)
                j = len(ext) - 1
            els.append(dict(t=ext[j], k=rng.choice("rrc"), x=j))
        else:
            els.append(dict(t=same if same and rng.random() < 0.8 else value_type(rng), k="v"))
    return els, ext


def decl(e):
    return e["t"] + {"v": "", "r": " &", "c": " const &", "k": " const"}[e["k"]]


# ---- C10 ------------------------------------------------------------------
def history(d):
    els, ext = d["els"], d["ext"]
    n = len(els)
    ct = "pigro::compressed_tuple<%s>" % ", ".join(decl(e) for e in els)
    mo = [e["k"] == "v" and e["t"] in MOVEONLY for e in els]

    def args(kind):
        r = []
        for i, e in enumerate(els):
            if e["k"] != "v": r.append("std::get<%d>(x)" % e["x"])
            elif kind == "make": r.append("mx::El<%s>::make(m[%d])" % (e["t"], i))
            else: r.append({"lv": "a%d" if not mo[i] else "std::move(a%d)", "rv": "std::move(a%d)", "clv": "std::as_const(a%d)" if not mo[i] else "std::move(a%d)",
                            "mix": ["a%d", "std::move(a%d)"][(i % 2) if not mo[i] else 1]}[kind] % i)
        return ", ".join(r)
    forms = ["new CT(%s)" % args(k) for k in ("lv", "rv", "clv", "mix", "make")] + ["new CT{%s}" % args("rv")]
    values = all(e["k"] == "v" for e in els)
    if values and n and not (n == 1 and is_ct(els[0]["t"])):
        forms.append("new auto(pigro::compressed_tuple{%s})" % args("lv"))
        forms.append("new auto(pigro::compressed_tuple(%s))" % args("make"))
    default = n > 0 and values and not any(t in e["t"] for e in els for t in NODEFAULT)
    conv = n > 0 and any(e["k"] == "v" and e["t"] in CONV for e in els)
    s = "using CT = %s;\nusing X = std::tuple<%s>;\n" % (ct, ", ".join(ext))
    s += "struct Mk {\n  static constexpr mx::u32 forms = %d;\n" % (len(forms) + (1 if default else 0))
    s += "  static std::unique_ptr<CT> make(mx::u32 f, const std::array<mx::u32, %d> &m, X &x, bool &def) {\n" % n
    for i, e in enumerate(els):
        if e["k"] == "v": s += "    auto a%d = mx::El<%s>::make(m[%d]);\n" % (i, e["t"], i)
    s += "    std::unique_ptr<CT> r;\n    switch (f) {\n"
    for i, f in enumerate(forms): s += "      case %d: r.reset(%s); break;\n" % (i, f)
    if default: s += "      case %d: def = true; r.reset(new CT); break;\n" % len(forms)
    s += "    }\n    return r;\n  }\n};\n"
    s += "static void run(pbt::Ctx &c) {\n"
    if conv:  # converting construction: one fixed value per type
        cargs, want = [], []
        for i, e in enumerate(els):
            if e["k"] != "v": cargs.append("std::get<%d>(x)" % e["x"])
            elif e["t"] in CONV: cargs.append(CONV[e["t"]]); want.append((i, e["t"]))
            else: cargs.append("mx::El<%s>::make(0)" % e["t"])
        s += "  { X x{%s}; CT t(%s);\n" % (", ".join("mx::El<%s>::make(0)" % t for t in ext), ", ".join(cargs))
        for i, t in want:
            if t == "std::function<int(int)>": s += "    CK(pigro::get<%d>(t)(1) == 4);\n" % i
            else: s += "    CK(pigro::get<%d>(t) == %s(%s));\n" % (i, t if "*" not in t else "(%s)" % t, CONV[t])
        s += "  }\n"
    s += "  tp::Hist<CT, X, Mk, std::integer_sequence<int%s>> h(c);\n  h.run();\n}\n" % "".join(", %d" % (e["x"] if e["k"] != "v" else -1) for e in els)
    return s


def long_elements(rng, n):
    """many elements, so that a limit of some fixed number of elements shows"""
    t = ["int"] * 5 + ["char", "std::string", "val::Empty", "mx::Em<0>"]
    return [dict(t="int", k="r", x=0) if i in (1, n - 2) else dict(t=rng.choice(t), k="v") for i in range(n)]


def unit10(d):
    return Unit(d, history(d))


def gen10(rng, tier, n):
    out = [unit10(dict(els=long_elements(rng, 257 if tier == "thorough" else 130), ext=["int"]))]
    while len(out) < n:
        els, ext = elements(rng)
        out.append(unit10(dict(els=els, ext=ext)))
    return out


def prune(d):
    used = sorted({e["x"] for e in d["els"] if "x" in e})
    mp = {o: k for k, o in enumerate(used)}
    for e in d["els"]:
        if "x" in e: e["x"] = mp[e["x"]]
    d["ext"] = [d["ext"][o] for o in used]
    return d


def shrink_elements(unit, mk):
    d = unit.desc
    if "els" not in d: return
    for i in range(len(d["els"])):
        h = copy.deepcopy(d)
        del h["els"][i]
        yield mk(prune(h))
    for i, e in enumerate(d["els"]):
        if e["k"] != "v":
            h = copy.deepcopy(d)
            h["els"][i] = dict(t=e["t"], k="v")
            yield mk(prune(h))
        elif e["t"] != "int":
            h = copy.deepcopy(d)
            h["els"][i]["t"] = "int"
            yield mk(h)


def shrink10(unit):
    return shrink_elements(unit, unit10)


# ---- C12 ------------------------------------------------------------------
def unit12(d):
    els, ext = d["els"], d["ext"]
    n = len(els)
    ct = "pigro::compressed_tuple<%s>" % ", ".join(decl(e) for e in els)
    s = "using CT = %s;\nusing ST = std::tuple<%s>;\n" % (ct, ", ".join(decl(e) for e in els))
    s += "template<size_t I, class T> using g = decltype(pigro::get<I>(std::declval<T>()));\n"
    s += "static void run(pbt::Ctx &c) {\n"
    s += "  CK(std::tuple_size_v<CT> == %d); CK(std::tuple_size_v<const CT> == %d); CK(std::tuple_size<CT>::value == %d); CK(mx::same<std::remove_cv_t<decltype(std::tuple_size<CT>::value)>, size_t>);\n" % (n, n, n)
    bad = sorted({n, n + 1, n + 2, 2 * n + 3, 100, 2**32, 2**64 - 1} | set(d["over"]))
    for i in bad:
        if i < n: continue
        s += "  CK(!tp::has_get<%dull, CT &>); CK(!tp::has_get<%dull, const CT &>); CK(!tp::has_get<%dull, CT>); CK(!tp::has_get<%dull, const CT>);\n" % (i, i, i, i)
    s += "  c.item(true, \"%d elements, indices past the end\");\n" % n
    vals = []
    for i, e in enumerate(els):
        t = e["t"]
        D = decl(e)
        s += "  { using T = %s; using D = %s; constexpr size_t I = %d;\n" % (t, D, i)
        s += "    c.item(true, \"element %d: %s\");\n" % (i, D.replace('"', ''))
        s += "    CK(mx::same<std::tuple_element_t<I, CT>, D>); CK(mx::same<std::tuple_element_t<I, const CT>, std::tuple_element_t<I, const ST>>);\n"
        s += "    CK(tp::has_get<I, CT &>); CK(tp::has_get<I, const CT &>); CK(tp::has_get<I, CT>); CK(tp::has_get<I, const CT>);\n"
        if e["k"] in "vk":
            if e["k"] == "k": s += "    using K = const T; "
            else: s += "    using K = T; "
            s += "    if constexpr (std::is_empty_v<T> && !std::is_final_v<T>) {\n"
            s += "      CK(mx::same<g<I, CT &>, T>); CK(mx::same<g<I, const CT &>, T>); CK(mx::same<g<I, CT>, T>); CK(mx::same<g<I, const CT>, T>);\n"
            s += "    } else {\n"
            s += "      CK(mx::same<g<I, CT &>, K &>); CK(mx::same<g<I, const CT &>, const T &>); CK(mx::same<g<I, CT>, K &&>); CK(mx::same<g<I, CT &&>, K &&>); CK(mx::same<g<I, const CT>, const T &&>);\n    }\n"
        else:
            s += "    CK(mx::same<g<I, CT &>, D>);\n"
        s += "  }\n"
        vals.append("std::get<%d>(x)" % e["x"] if e["k"] not in "vk" else "mx::El<%s>::make(%d)" % (t, i + 1))
    s += "  [[maybe_unused]] std::tuple<%s> x{%s};\n" % (", ".join(ext), ", ".join("mx::El<%s>::make(%d)" % (t, j) for j, t in enumerate(ext)))
    s += "  CT t(%s);\n" % ", ".join(vals) if n else "  CT t;\n"
    for i, e in enumerate(els):
        want = "(%d %% mx::El<%s>::D())" % (e["x"] if e["k"] not in "vk" else i + 1, e["t"])
        for how in ("t", "std::as_const(t)", "std::move(t)", "std::move(std::as_const(t))"):
            s += "  { auto &&r = pigro::get<%d>(%s); CK(mx::El<%s>::code(r) == %s);" % (i, how, e["t"], want)
            if e["k"] not in "vk": s += " CK((const void *)std::addressof(r) == (const void *)std::addressof(std::get<%d>(x)));" % e["x"]
            elif e["t"] not in EMPTIES and not is_ct(e["t"]): s += " CK((const void *)std::addressof(r) == (const void *)std::addressof(pigro::get<%d>(t)));" % i
            s += " }\n"
    if n:  # unqualified, with structured bindings
        nm = ", ".join("s%d" % i for i in range(n))
        s += "  { auto &&[%s] = t;" % nm
        for i, e in enumerate(els): s += " CK(mx::same<decltype(s%d), %s>); CK(mx::El<%s>::code(s%d) == %s);" % (i, decl(e), e["t"], i, "(%d %% mx::El<%s>::D())" % (e["x"] if e["k"] not in "vk" else i + 1, e["t"]))
        s += " }\n"
    s += "}\n"
    return Unit(d, s)


def gen12(rng, tier, n):
    out = []
    while len(out) < n:
        els, ext = elements(rng, refs=0.25, hi=10)
        for e in els:  # const elements
            if e["k"] == "v" and rng.random() < 0.15 and not is_ct(e["t"]) and e["t"] not in MOVEONLY: e["k"] = "k"
        out.append(unit12(dict(els=els, ext=ext, over=[rng.randint(0, 40) for _ in range(3)])))
    return out


def shrink12(unit):
    return shrink_elements(unit, unit12)


# ---- C11 ------------------------------------------------------------------
LAYOUT = ["char", "bool", "short", "int", "int", "long", "float", "double", "std::string", "val::Pod", "val::Wide", "val::FinalEmpty", "mx::WithEmpty", "mx::DerivedEmpty",
          "std::tuple<val::Empty, int>", "std::pair<char, int>", "std::optional<int>", "int*", "mx::Agg", "std::unique_ptr<int>", "std::array<char,3>", "std::tuple<val::Empty>"]


class Node(dict):
    pass


def lay_type(rng, depth=0):
    x = rng.random()
    if x < 0.45: return dict(n="leaf", t=rng.choice(EMPTIES), e=True)
    if depth < 3 and x < 0.62: return dict(n="ct", els=[lay_type(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))])
    if depth < 2 and x < 0.68: return lay_bound(rng, depth + 1)
    if x < 0.74: return dict(n="ref", t=rng.choice(LAYOUT))
    return dict(n="leaf", t=rng.choice(LAYOUT), e=False)


def lay_bound(rng, depth=0):
    f = rng.choice([dict(n="leaf", t="tp::F<0>", e=True), dict(n="leaf", t="tp::F<1>", e=True), dict(n="leaf", t="tp::FS<char>", e=False), dict(n="leaf", t="tp::FS<int>", e=False),
                    dict(n="leaf", t="tp::FS<std::string>", e=False), dict(n="leaf", t="tp::L", e=True)])
    return dict(n="bound", op=rng.choice([">>", "<<"]), f=f, els=[lay_type(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))])


def empty(t):
    if t["n"] == "leaf": return t["e"]
    if t["n"] == "ref": return False
    return all(empty(e) for e in t["els"]) and (t["n"] == "ct" or empty(t["f"]))


def cpp(t):
    if t["n"] == "leaf": return t["t"]
    if t["n"] == "ref": return t["t"] + " &"
    ct = "pigro::compressed_tuple<%s>" % ", ".join(cpp(e) for e in t["els"])
    if t["n"] == "ct": return ct
    return "decltype(std::declval<%s>() %s std::declval<%s>())" % (ct, t["op"], cpp(t["f"]))


def ref_struct(t, names, out):
    """a plain struct of the non-empty members, in order; returns its type name"""
    if t["n"] == "leaf": return t["t"]
    if t["n"] == "ref": return "void *"
    members = []
    els = t["els"]
    if t["n"] == "bound":
        if not empty(t["f"]): members.append(ref_struct(t["f"], names, out))
        inner = dict(n="ct", els=els)
        if not empty(inner): members.append(ref_struct(inner, names, out))
    else:
        members = [ref_struct(e, names, out) for e in els if not empty(e)]
    nm = "R%d" % len(names)
    names.append(nm)
    out.append("struct %s { %s };" % (nm, " ".join("%s m%d;" % (m, i) for i, m in enumerate(members))))
    return nm


def unit11(d):
    s, b = "", ""
    names = []
    for i, t in enumerate(d["list"]):
        out = []
        r = ref_struct(t, names, out)
        s += "\n".join(out) + "\nusing T%d = %s;\n" % (i, cpp(t))
        nt = str(t["n"] == "bound" or (len(t["els"]) > 1 and any(empty(e) for e in t["els"]))).lower()
        b += '  c.item(%s, "sizeof(%s)");\n' % (nt, cpp(t))
        if empty(t):
            b += "  CK(std::is_empty_v<T%d>); struct D%d : T%d { int i; }; CK(sizeof(D%d) == sizeof(int));\n" % (i, i, i, i)
        else:
            b += '  c.checkf(sizeof(T%d) <= sizeof(%s), [] { return "%s takes " + mx::S(sizeof(T%d)) + " bytes, while its non-empty parts need " + mx::S(sizeof(%s)); });\n' % (i, r, cpp(t), i, r)
    return Unit(d, s + "static void run(pbt::Ctx &c) {\n" + b + "}\n")


def gen11(rng, tier, n):
    out = []
    while len(out) < n:
        l = []
        for _ in range(10):
            if rng.random() < 0.3: l.append(lay_bound(rng))
            else:
                k = rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 8, 10])
                one = lay_type(rng, 1) if rng.random() < 0.3 else None
                l.append(dict(n="ct", els=[copy.deepcopy(one) if one and rng.random() < 0.7 else lay_type(rng) for _ in range(k)]))
        out.append(unit11(dict(list=l)))
    return out


def smaller(t):
    if t["n"] in ("ct", "bound"):
        for i in range(len(t["els"])):
            h = copy.deepcopy(t)
            del h["els"][i]
            yield h
        for i, e in enumerate(t["els"]):
            if e["n"] in ("ct", "bound"):
                for x in smaller(e):
                    h = copy.deepcopy(t)
                    h["els"][i] = x
                    yield h
            elif e["n"] == "ref" or (not e["e"] and e["t"] != "int"):
                h = copy.deepcopy(t)
                h["els"][i] = dict(n="leaf", t="int", e=False)
                yield h


def shrink11(unit):
    l = unit.desc.get("list")
    if not l: return
    if len(l) > 1:
        for t in l: yield unit11(dict(list=[t]))
        return
    for t in smaller(l[0]): yield unit11(dict(list=[t]))
