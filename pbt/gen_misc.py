"""Generators for apply/to_tuple (C16), overload (C17), recursive (C18), pack and tuple algorithms (C19-C21), regular_void (C22), uncapture (C23), helpers (C24), concepts (C25)."""
import copy
from .core import Unit, numbers_up_to
from . import gen_tuple as gt
from . import gen_bind as gb

CATS = ["lv", "clv", "rv", "crv"]
CATQ = {"lv": " &", "clv": " const &", "rv": " &&", "crv": " const &&"}
CATN = {"lv": 0, "clv": 1, "rv": 2, "crv": 3}
EXPR = {"lv": "%s", "clv": "std::as_const(%s)", "rv": "std::move(%s)", "crv": "std::move(std::as_const(%s))"}


def tuple_type(d):
    decls = [gt.decl(e) for e in d["els"]]
    return {"tuple": "std::tuple<%s>" % ", ".join(decls), "usr": "usr::Tup<%s>" % ", ".join(decls), "ct": "pigro::compressed_tuple<%s>" % ", ".join(decls), "pair": "std::pair<%s>" % ", ".join(decls),
            "array": "std::array<%s, %d>" % (d["els"][0]["t"] if d["els"] else "int", len(d["els"]))}[d["kind"]]


def passed(d, e, cat):
    """declared type of the element as get returns it for this category of the tuple; None: not specified here"""
    if d["kind"] == "ct":
        if gb.is_empty(e["t"]): return e["t"]
        if e["k"] == "v": return e["t"] + CATQ[cat]
        return gt.decl(e) if cat == "lv" else None
    if e["k"] == "v": return e["t"] + CATQ[cat]
    return gt.decl(e)


def drop_el(d, mk, key="els"):
    for i in range(len(d[key])):
        h = copy.deepcopy(d)
        del h[key][i]
        if h.get("kind") == "pair": h["kind"] = "tuple"
        yield mk(h)
    for i, e in enumerate(d[key]):
        if e["t"] != "int" and h_ok(d):
            h = copy.deepcopy(d)
            h[key][i]["t"] = "int"
            yield mk(h)


def h_ok(d):
    return d.get("kind") != "array"


# ---- C16 ------------------------------------------------------------------
def gen_unit16(rng):
    b = gb.bound_list(rng)
    while b["kind"] == "args": b = gb.bound_list(rng)
    if rng.random() < 0.35:  # what is accepted
        els = [dict(t=rng.choice(gb.BOUND), k="v" if rng.random() < 0.7 else rng.choice("rrc")) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
        d = dict(mode="accepts", kind=rng.choice(["tuple", "ct", "usr"]), els=els, funs=[gb.dedupe(gb.gen_fun(rng, len(els), k, [e["t"] for e in els])) for k in range(5)])
        return d
    return dict(mode="calls", kind=b["kind"], els=b["els"], fn=rng.choice(["gen", "mut", "state", "final", "qual", "lambda", "ptr"]), fcat=rng.choice(["lv", "rv"]), ret=rng.choice(gb.RETS))


def unit16(d):
    els = d["els"]
    T = tuple_type(d)
    if d["mode"] == "accepts":
        s = "using T = %s;\n" % T
        b = ""
        for k, f in enumerate(d["funs"]):
            s += gb.fun_cpp(f, "F%d" % k)
            for cat in CATS:
                ps = [passed(d, e, cat) for e in els]
                if None in ps: continue
                for fc, fq in (("lv", " &"), ("rv", ""), ("clv", " const &")):
                    b += '  ms::apply_accepts<F%d%s, T%s>(c, "F%d %s, tuple %s (%s)", bd::L<%s>{});\n' % (k, fq, CATQ[cat], k, fc, cat, ", ".join(ps), ", ".join(ps))
        return Unit(d, s + "static void run(pbt::Ctx &c) {\n" + b + "}\n")
    s = "static void run(pbt::Ctx &c) {\n"
    for i, e in enumerate(els): s += "  const mx::u32 k%d = (mx::u32)c.draw(mx::El<%s>::D()); %s v%d = mx::El<%s>::make(k%d);\n" % (i, e["t"], e["t"], i, e["t"], i)
    init = ["std::move(v%d)" % i if e["k"] == "v" else "v%d" % i for i, e in enumerate(els)]
    s += "  %s t%s;\n" % (T, ("{%s}" if d["kind"] != "array" else "{ {%s} }") % ", ".join(init) if init else "{}")
    s += "  using std::get; using pigro::get;\n"
    d13 = dict(d, levels=[dict(kind=d["kind"], els=els, cat="clv", op=">>")], further=[])
    fixed = d["fn"] == "ptr"
    s += "  auto f = %s;\n" % gb.fn13(d13)
    for cat in CATS:
        ex = []
        for i, e in enumerate(els):
            p = passed(d, e, cat)
            if fixed: ex.append("bd::want<%s>(k%d)" % (e["t"], i)); continue
            adr = "nullptr" if d["kind"] == "ct" and gb.is_empty(e["t"]) else "std::addressof(v%d)" % i if e["k"] != "v" else "std::addressof(get<%d>(t))" % i
            ex.append("bd::want<%s>(k%d, %s, %s)" % (e["t"], i, "bd::cat<%s>()" % p if p else "-1", adr))
        fx = {"lv": "f", "rv": "std::move(f)"}[d["fcat"]] if d["fn"] not in ("qual", "state", "lambda") else "f"
        call = "pigro::apply(%s, %s)" % (fx, EXPR[cat] % "t")
        if fixed and cat == "rv" and any(e["t"] in gt.MOVEONLY for e in els): pass
        if fixed and cat in ("lv", "rv") : continue  # the parameter types were made for const elements
        s += "  if (!c.failed) {\n    bd::calls.clear();\n    const std::vector<bd::Arg> exp{%s};\n" % ", ".join(ex)
        s += "    c.sayf([&] { std::string r = \"apply to a tuple (%s) with\"; for (auto &a : exp) r += \" \" + mx::S(a.code); return r; });\n" % cat
        s += "    CK(mx::same<decltype(%s), bd::ret_t<%d>>);\n" % (call, d["ret"])
        if d["ret"] == 1: s += "    %s;\n    if (bd::compare(c, exp)) CKM(\"result\", bd::global == bd::digest(exp));\n" % call
        else: s += "    decltype(auto) r = %s;\n    if (bd::compare(c, exp)) c.check(bd::right<%d>(r, bd::digest(exp)), \"the result differs from that of a direct call\");\n" % (call, d["ret"])
        s += "  }\n"
    # to_tuple
    if not any(d["kind"] == "ct" and gb.is_empty(e["t"]) for e in els):
        for cat in CATS:
            ps = [passed(d, e, cat) for e in els]
            s += "  if (!c.failed) { c.say(\"to_tuple (%s)\"); auto u = pigro::to_tuple(%s); CK(std::tuple_size_v<decltype(u)> == %d);\n" % (cat, EXPR[cat] % "t", len(els))
            if None not in ps: s += "    CK(mx::same<decltype(u), std::tuple<%s>>);\n" % ", ".join(ps)
            for i, e in enumerate(els):
                s += "    CK((const void *)std::addressof(std::get<%d>(u)) == (const void *)%s); CK(mx::El<%s>::code(std::get<%d>(u)) == k%d);\n" % (i, "std::addressof(v%d)" % i if e["k"] != "v" else "std::addressof(get<%d>(t))" % i, e["t"], i, i)
                if cat == "lv" and e["k"] != "c":
                    s += "    { const mx::u32 n = (mx::u32)c.draw(mx::El<%s>::D()); std::get<%d>(u) = mx::El<%s>::make(n); CK(mx::El<%s>::code(get<%d>(t)) == n); std::get<%d>(u) = mx::El<%s>::make(k%d); get<%d>(t) = mx::El<%s>::make(n); CK(mx::El<%s>::code(std::get<%d>(u)) == n); get<%d>(t) = mx::El<%s>::make(k%d); }\n" % (e["t"], i, e["t"], e["t"], i, i, e["t"], i, i, e["t"], e["t"], i, i, e["t"], i)
            s += "  }\n"
    s += "  c.nontrivial = %s;\n}\n" % ("true" if len(els) > 1 else "false")
    return Unit(d, s)


def gen16(rng, tier, n):
    return [unit16(gen_unit16(rng)) for _ in range(n)]


def shrink16(unit):
    d = unit.desc
    if d.get("mode") == "accepts":
        if len(d["funs"]) > 1:
            for f in d["funs"]:
                h = copy.deepcopy(d); h["funs"] = [f]; yield unit16(h)
        elif len(d["funs"][0]["ops"]) > 1:
            for j in range(len(d["funs"][0]["ops"])):
                h = copy.deepcopy(d); del h["funs"][0]["ops"][j]; yield unit16(h)
    if "els" in d: yield from drop_el(d, unit16)


# ---- C17 ------------------------------------------------------------------
EXPRS = ["0", "0", "{}", "{1}", "{1, 2}", "nullptr", "\"text\"", "1.5", "'c'", "lam", "bits.f", "{nullptr}", "val::Empty{}", "array", "ovf", "true", "0l"]


def gen_unit17(rng):
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8])
    na = rng.choice([1, 1, 1, 2, 2, 3])
    base = [rng.choice(gb.ARGS) for _ in range(na)]
    refq = rng.random() < 0.25
    fs, seen = [], set()
    for _ in range(n):
        if rng.random() < 0.2:
            f = dict(tmpl=True, req=rng.choice(gb.REQ), first=rng.random() < 0.6, q="")
        else:
            k = max(0, na + rng.choice([0, 0, 0, 0, 0, -1, 1]))
            f = dict(p=[gb.accepts(base[i], rng) if i < na and rng.random() < 0.5 else rng.choice(gb.PARAMS) for i in range(k)], q="", opt=rng.random() < 0.06, el=False)
        f["q"] = rng.choice(["&", "const &", "&&", "const &&"]) if refq else rng.choice(["const", "const", "const", ""])
        if f.get("tmpl"): key = ("t", f["first"] or "A0" in f["req"], f["req"], f["q"])
        else: key = ("p", tuple(f["p"] + (["int"] if f["opt"] and f["p"] else [])), f["q"])
        if key in seen: continue
        seen.add(key)
        f["state"] = rng.choice([None, None, None, "char", "int", "long", "std::string", "std::string", "std::unique_ptr<int>"])
        f["lambda"] = f["state"] is not None and not refq and not f.get("tmpl") and rng.random() < 0.3
        fs.append(f)
    args = []
    for _ in range(12):
        a = [x if rng.random() < 0.5 else rng.choice(gb.ARGS) for x in base]
        x = rng.random()
        if x < 0.12: a.append(rng.choice(gb.ARGS))
        elif x < 0.24: a.pop()
        if a not in args: args.append(a)
    order = list(range(len(fs)))
    rng.shuffle(order)
    exprs = []
    for _ in range(8):  # arguments that are more than a type and a category
        a = [rng.choice(EXPRS) if rng.random() < 0.7 else "std::declval<%s>()" % (x if rng.random() < 0.5 else rng.choice(gb.ARGS)) for x in base]
        if a not in exprs: exprs.append(a)
    return dict(fs=fs, order=order, args=args, exprs=exprs)


def sig(f, k, body):
    r = "bd::Tag<%d>" % k
    if f.get("tmpl"):
        if f["first"] or "A0" in f["req"]: return "template<class A0, class... A> %s %s operator()(A0 &&, A &&...) %s { %s }" % ("requires(%s)" % f["req"] if f["req"] else "", r, f["q"], body)
        return "template<class... A> %s %s operator()(A &&...) %s { %s }" % ("requires(%s)" % f["req"] if f["req"] else "", r, f["q"], body)
    return "%s operator()(%s%s) %s { %s }" % (r, ", ".join(f["p"]) + (", int = 3" if f["opt"] and f["p"] else ""), ("..." if not f["p"] else ", ...") if f["el"] else "", f["q"], body)


def unit17(d):
    s = "static mx::u64 who, key; // the function that ran, and the state it had\n"
    fs = d["fs"]
    mk = {}
    for k, f in enumerate(fs):
        st = f["state"]
        body = "who = %d; key = %s; return {};" % (k, {"std::string": "st.size()", None: "0", "std::unique_ptr<int>": "st ? (mx::u64)*st : 0"}.get(st, "(mx::u64)st"))
        val = {"char": "(char)%d" % (k + 1), "int": "%d" % (1000 + k), "long": "%dl" % (10**10 + k), "std::string": "std::string(%d, 'x')" % (50 + k), "std::unique_ptr<int>": "std::make_unique<int>(%d)" % (70 + k)}.get(st)
        if f["lambda"]:
            s += "static auto make%d() { return [%s](%s%s) %s -> bd::Tag<%d> { %s }; }\n" % (k, "st = " + val if st else "", ", ".join(f["p"]) + (", int = 3" if f["opt"] and f["p"] else ""),
                                                                                       ("..." if not f["p"] else ", ...") if f["el"] else "", "" if "const" in f["q"] else "mutable", k, body)
            s += "using F%d = decltype(make%d());\n" % (k, k)
            mk[k] = "make%d()" % k
        else:
            s += "struct F%d { %s %s };\n" % (k, st + " st;" if st else "", sig(f, k, body))
            mk[k] = "F%d{%s}" % (k, val if st else "")
    s += "struct Ref { %s };\n" % "\n  ".join(sig(f, k, "who = %d; return {};" % k) for k, f in enumerate(fs))
    ids = list(range(len(fs)))
    s += "static struct { int f : 3; } bits; static int array[2]; static auto lam = [](int) { return 0; }; int ovf(int); int ovf(double);\n"
    s += "using O = pigro::overload<%s>;\nusing P = pigro::overload<%s>;\n" % (", ".join("F%d" % k for k in ids), ", ".join("F%d" % k for k in d["order"]))
    b = ""
    for a in d["args"]:
        for o in ("O", "P"): b += '  ms::resolves<%s, Ref>(c, "(%s)", bd::L<%s>{});\n' % (o, ", ".join(a), ", ".join(a))
    for a in d["exprs"]:
        e = ", ".join(a)
        b += "  ms::resolves_expr<Ref, O, P>(c, %s, [](auto &&o) -> std::type_identity<decltype(static_cast<decltype(o)>(o)(%s))> { return {}; });\n" % ('"' + ("(%s)" % e).replace('"', '\\"') + '"', e)
    if fs:
        b += "  auto o = pigro::overload{%s}; CK(mx::same<decltype(o), O>); auto p = pigro::overload{%s};\n" % (", ".join(mk[k] for k in ids), ", ".join(mk[k] for k in d["order"]))
        mo = any(f["state"] == "std::unique_ptr<int>" for f in fs)
        b += "  CK(std::is_copy_constructible_v<O> == %s);\n" % ("false" if mo else "true")
        if mo: b += "  auto o3 = std::move(p);\n"
        else: b += "  auto o2 = o; auto o3 = std::move(p); std::vector<O> ov; ov.push_back(o); ov.push_back(ov[0]);\n"
        s += "template<class O, class... A> void calls(pbt::Ctx &c, O &&o, int want, mx::u64 state, A &&...a) { who = 99; std::forward<O>(o)(std::forward<A>(a)...); c.check(who == (mx::u64)want, \"another function ran\"); c.check(key == state, \"a function lost its captured state\"); }\n"
        # each function by its own exact arguments, when resolvable
        for k, f in enumerate(fs):
            if f.get("tmpl") or f["el"]: continue
            A = ", ".join(f["p"])
            st = {"char": k + 1, "int": 1000 + k, "long": 10**10 + k, "std::string": 50 + k, "std::unique_ptr<int>": 70 + k, None: 0}[f["state"]]
            s += "template<class R, class O> void exact%d(pbt::Ctx &c, O &&o) {\n  if constexpr (std::is_invocable_v<R%s> && std::is_invocable_v<O%s>) if constexpr (mx::same<std::invoke_result_t<R%s>, bd::Tag<%d>>) {\n" % (k, ", " + A if A else "", ", " + A if A else "", ", " + A if A else "", k)
            for i, p in enumerate(f["p"]):
                base = p.replace("const ", "", 1).rstrip("& ") if p.startswith("const ") and "*" not in p else p.rstrip("& ")
                s += "    static %s a%d%s;\n" % (base, i, {"bd::FromInt": "{1}", "bd::Explicit": "{1}"}.get(base, "{}"))
            cast = ", ".join("static_cast<%s>(%s)" % (p if p.endswith("&") else p + " &&", "a%d" % i) for i, p in enumerate(f["p"]))
            s += "    c.item(true); calls(c, std::forward<O>(o), %d, %dull%s);\n  }\n}\n" % (k, st, ", " + cast if cast else "")
            for o in ("o", "o3") if mo else ("o", "o2", "o3", "ov[1]"):
                b += "  exact%d<Ref &>(c, %s); exact%d<const Ref &>(c, std::as_const(%s)); exact%d<Ref>(c, std::move(%s));\n" % (k, o, k, o, k, o)
    ne = [f["state"] for f in fs if f["state"]]
    if not ne: b += "  CK(std::is_empty_v<O>); CK(std::is_empty_v<P>);\n"
    s += "struct Plain { %s };\n" % " ".join("%s m%d;" % (t, i) for i, t in enumerate(ne))
    if ne: b += "  CK(sizeof(O) <= sizeof(Plain));\n"
    return Unit(d, s + "static void run(pbt::Ctx &c) {\n" + b + "}\n")


def gen17(rng, tier, n):
    return [unit17(gen_unit17(rng)) for _ in range(n)]


def shrink17(unit):
    d = unit.desc
    if "fs" not in d: return
    for k in range(len(d["fs"])):
        h = copy.deepcopy(d)
        del h["fs"][k]
        h["order"] = [o - (o > k) for o in h["order"] if o != k]
        yield unit17(h)
    for k in ("args", "exprs"):
        if d[k]:
            h = copy.deepcopy(d); h[k] = []; yield unit17(h)
        if len(d[k]) > 1:
            for a in d[k]:
                h = copy.deepcopy(d); h[k] = [a]; yield unit17(h)


# ---- C18 ------------------------------------------------------------------
def gen_unit18(rng):
    mode = rng.choice(["algo", "algo", "algo", "call", "call", "accepts"])
    if mode == "algo":
        params = rng.choice([1, 2, 2, 3])
        calls = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            calls.append(dict(dec=rng.choice([1, 1, 2, 3, 5]), xf=[rng.choice(["a%d + %d" % (i, rng.randint(1, 9)), "a%d * 3" % i, "a%d ^ (n * %d)" % (i, rng.randint(1, 50)), "a%d" % i]) for i in range(1, params)]))
        form = rng.choice(["clambda", "clambda", "mlambda", "functor", "byvalue", "capture", "memo", "counter"])
        return dict(mode=mode, params=params, calls=calls, form=form, base=rng.randint(0, 3), comb=rng.choice(["+", "^", "*31 +", "mix"]), maxn=12 if len(calls) > 2 else 16 if len(calls) == 2 else 60)
    if mode == "call":
        return dict(mode=mode, fn=rng.choice(["Rc", "RcState", "RcQual"]), ret=rng.choice(gb.RETS), els=[dict(t=gb.vtype(rng), cat=rng.choice(CATS)) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))])
    base = [rng.choice(gb.ARGS) for _ in range(rng.choice([0, 1, 2]))]
    ops = []
    for k in range(rng.choice([1, 2, 3])):
        ps = [gb.accepts(t, rng) if rng.random() < 0.7 else rng.choice(gb.PARAMS) for t in base]
        ops.append(dict(p=ps, self=rng.choice(["auto &&", "auto &", "const auto &", "auto", "pigro::recursive<F> &", "const pigro::recursive<F> &", "pigro::recursive<F> &&"]), q=rng.choice(["", "const", "", "const"]), ref=False))
    if rng.random() < 0.3:
        for o in ops: o["q"] = rng.choice(["&", "const &", "&&", "const &&"])
    args = [base]
    for _ in range(8):
        a = [x if rng.random() < 0.5 else rng.choice(gb.ARGS) for x in base]
        if rng.random() < 0.3: a.append(rng.choice(gb.ARGS))
        if a not in args: args.append(a)
    return dict(mode=mode, ops=ops, args=args, state=rng.random() < 0.5)


def unit18(d):
    if d["mode"] == "accepts":
        s = "struct F {%s\n" % (" int state = 0;" if d["state"] else "")
        seen = set()
        for k, o in enumerate(d["ops"]):
            key = (o["self"], tuple(o["p"]), o["q"])
            if key in seen: continue
            seen.add(key)
            s += "  bd::Tag<%d> operator()(%s) %s { return {}; }\n" % (k, ", ".join([o["self"]] + o["p"]), o["q"])
        s += "};\n"
        b = "  CK(sizeof(pigro::recursive<F>) == sizeof(F)); CK(std::is_empty_v<pigro::recursive<F>> == std::is_empty_v<F>);\n"
        for a in d["args"]: b += '  ms::recursive_accepts<F>(c, "(%s)", bd::L<%s>{});\n' % (", ".join(a), ", ".join(a))
        return Unit(d, s + "static void run(pbt::Ctx &c) {\n" + b + "}\n")
    if d["mode"] == "call":
        F = "ms::%s<%d>" % (d["fn"], d["ret"])
        s = "static void run(pbt::Ctx &c) {\n  using F = %s; using R = pigro::recursive<F>;\n" % F
        for i, e in enumerate(d["els"]): s += "  const mx::u32 w%d = (mx::u32)c.draw(mx::El<%s>::D()); %s a%d = mx::El<%s>::make(w%d);\n" % (i, e["t"], e["t"], i, e["t"], i)
        s += "  R r{F{}}; auto ctad = pigro::recursive{F{}}; CK(mx::same<decltype(ctad), R>); CK(sizeof(R) == sizeof(F)); CK(std::is_empty_v<R> == std::is_empty_v<F>);\n"
        ex = ["bd::want<%s>(w%d, %d, std::addressof(a%d))" % (e["t"], i, CATN[e["cat"]], i) for i, e in enumerate(d["els"])]
        s += "  const std::vector<bd::Arg> exp{%s};\n" % ", ".join(ex)
        args = ", ".join(EXPR[e["cat"]] % ("a%d" % i) for i, e in enumerate(d["els"]))
        for cat in CATS:
            call = "%s(%s)" % (EXPR[cat] % "r", args)
            want = "R" + CATQ[cat]
            s += "  if (!c.failed) { bd::calls.clear(); ms::seen = {}; c.say(\"call of the %s\"); CK(mx::same<decltype(%s), bd::ret_t<%d>>);\n" % (cat, call, d["ret"])
            if d["ret"] == 1: s += "    %s;\n    if (bd::compare(c, exp)) CKM(\"result\", bd::global == bd::digest(exp));\n" % call
            else: s += "    decltype(auto) q = %s;\n    if (bd::compare(c, exp)) c.check(bd::right<%d>(q, bd::digest(exp)), \"the result is not the one of the function\");\n" % (call, d["ret"])
            s += "    c.check(ms::seen.self_type == &bd::tid<%s>, \"the first argument does not have the constness and category of the called object (%s)\"); c.check(ms::seen.self == &r, \"the first argument is not the called object itself\"); }\n" % (want, cat)
        s += "  c.nontrivial = true;\n}\n"
        return Unit(d, s)
    # algorithms
    P = d["params"]
    plist = ["mx::u64 n"] + ["mx::u64 a%d" % i for i in range(1, P)]
    names = ["n"] + ["a%d" % i for i in range(1, P)]

    def body(call, memo=False):
        base = " ^ ".join(["0x51ull"] + ["(%s * %dull)" % (x, 7 + 2 * i) for i, x in enumerate(names)])
        s = "if (n <= %d) return mx::u64(%s);\n" % (d["base"], base)
        s += "    mx::u64 r = n;\n"
        for q in d["calls"]:
            args = ", ".join(["n < %d ? 0 : n - %d" % (q["dec"], q["dec"])] + q["xf"])
            x = call % args
            s += "    r = %s;\n" % {"+": "r + %s" % x, "^": "r ^ %s" % x, "*31 +": "r * 31 + %s" % x, "mix": "mx::mix(r, %s)" % x}[d["comb"]]
        return s + "    return r;"
    s = "static mx::u64 plain(%s) {\n    %s\n}\n" % (", ".join(plist), body("plain(%s)"))
    form = d["form"]
    PL = ", ".join(plist)
    if form == "functor":
        s += "struct F { mx::u64 operator()(auto &&self, %s) const {\n    %s\n  } };\n" % (PL, body("self(%s)"))
        make = "pigro::recursive{F{}}"
    elif form == "byvalue":
        make = "pigro::recursive{[](auto self, %s) -> mx::u64 {\n    %s\n  }}" % (PL, body("self(%s)"))
    elif form == "capture":
        make = "pigro::recursive{[big = std::string(100, 'q')](const auto &self, %s) -> mx::u64 {\n    if (big.size() != 100) return 0;\n    %s\n  }}" % (PL, body("self(%s)"))
    elif form == "mlambda":
        make = "pigro::recursive{[k = mx::u64(0)](auto &&self, %s) mutable -> mx::u64 {\n    ++k;\n    %s\n  }}" % (PL, body("self(%s)"))
    elif form == "memo":
        key = "std::array<mx::u64, %d>{%s}" % (P, ", ".join(names))
        make = "pigro::recursive{[memo = std::map<std::array<mx::u64, %d>, mx::u64>{}](auto &self, %s) mutable -> mx::u64 {\n    if (auto i = memo.find(%s); i != memo.end()) return i->second;\n    auto calc = [&]() -> mx::u64 {\n    %s\n    };\n    const mx::u64 v = calc();\n    memo.emplace(%s, v);\n    return v;\n  }}" % (P, PL, key, body("self(%s)"), key)
    elif form == "counter":
        s += "struct F { mx::u64 count = 0; mx::u64 operator()(auto &self, %s) {\n    ++self.count;\n    %s\n  } };\nstatic mx::u64 pcount = 0;\nstatic mx::u64 counted(%s) {\n    ++pcount;\n    %s\n}\n" % (PL, body("self(%s)"), PL, body("counted(%s)"))
        make = "pigro::recursive{F{}}"
    else:
        make = "pigro::recursive{[](const auto &self, %s) -> mx::u64 {\n    %s\n  }}" % (PL, body("self(%s)"))
    s += "static void run(pbt::Ctx &c) {\n  auto r = %s;\n  auto r2 = r;\n" % make
    if form == "counter": s += "  pcount = 0; mx::u64 before = 0;\n"
    s += "  const auto rounds = c.range(1, 4);\n  for (mx::u64 q = 0; q < rounds && !c.failed; ++q) {\n"
    s += "    const mx::u64 n = c.draw(%d);" % (d["maxn"] + 1)
    for i in range(1, P): s += " const mx::u64 a%d = c.chance(1, 4) ? ~c.draw(1000) : c.draw(1000);" % i
    args = ", ".join(names)
    s += "\n    const auto w = plain(%s), g = r(%s);\n    c.sayf([&] { return \"n = \" + mx::S(n); });\n    c.checkf(g == w, [&] { return \"the recursion yields \" + mx::S(g) + \" instead of \" + mx::S(w); });\n" % (args, args)
    if form in ("clambda", "functor", "capture"): s += "    CK(std::as_const(r2)(%s) == w);\n" % args
    if form == "byvalue": s += "    CK(std::as_const(r2)(%s) == w);\n" % args
    if form == "memo": s += "    CK(r(%s) == w);\n" % args
    if form == "counter": s += "    counted(%s); CKM(\"state kept in the function is not the state seen through the first argument\", r.count == pcount);\n" % args
    s += "    if (n > %d) c.nontrivial = true;\n  }\n}\n" % (d["base"] + 1)
    return Unit(d, s)


def gen18(rng, tier, n):
    return [unit18(gen_unit18(rng)) for _ in range(n)]


def shrink18(unit):
    d = unit.desc
    if d.get("mode") == "accepts":
        if len(d["args"]) > 1:
            for a in d["args"]:
                h = copy.deepcopy(d); h["args"] = [a]; yield unit18(h)
        if len(d["ops"]) > 1:
            for j in range(len(d["ops"])):
                h = copy.deepcopy(d); del h["ops"][j]; yield unit18(h)
    elif d.get("mode") == "call": yield from drop_el(d, unit18)
    elif d.get("mode") == "algo":
        if len(d["calls"]) > 1:
            for j in range(len(d["calls"])):
                h = copy.deepcopy(d); del h["calls"][j]; yield unit18(h)


# ---- C19 ------------------------------------------------------------------
def gen_unit19(rng):
    if rng.random() < 0.25:
        hints = [v for v in numbers_up_to(70)]
        ns = sorted({rng.choice([0, 1, 2, 3, 5, 8, 13, 33, 64]), rng.randint(0, 40), rng.choice(hints) if hints else 4})
        if rng.random() < 0.15: ns.append(rng.choice([129, 257, 300]))
        return dict(mode="n", ns=ns, fcat=rng.choice(["lv", "rv"]))
    if rng.random() < 0.025: return dict(mode="long", n=rng.choice([100, 129, 257, 260]), t=rng.choice(["int", "std::string", "std::unique_ptr<int>"]))
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, rng.randint(0, 20)])
    same = rng.choice([None, None, "int", "std::string"])
    return dict(mode="pack", els=[dict(t=same or rng.choice([gb.vtype(rng), gb.vtype(rng), "bd::Pin"]), cat=rng.choice(CATS)) for _ in range(n)], fn=rng.choice(["const", "mut", "state"]), fcat=rng.choice(["lv", "rv"]), ret=rng.choice([0, 1, 2, 3, 6, 9]))


def unit19(d):
    s = ""
    if d["mode"] == "n":
        b = ""
        for n in d["ns"]:
            b += "  { int calls = 0; auto f = [&calls](auto &&...items) mutable { ++calls; return std::pair{ std::vector<std::pair<size_t, size_t>>{ { size_t(std::remove_cvref_t<decltype(items)>::index), size_t(items.value) }... }, sizeof...(items) }; };\n"
            b += "    const auto r = pigro::enumerate_n<%d>(%s); c.item(%s, \"enumerate_n<%d>\"); CK(calls == 1); CK(r.second == %d);\n" % (n, "f" if d["fcat"] == "lv" else "std::move(f)", "true" if n > 1 else "false", n, n)
            b += "    for (size_t i = 0; i < r.first.size(); ++i) c.checkf(r.first[i].first == i && r.first[i].second == i, [&] { return \"item \" + mx::S(i) + \" of enumerate_n<%d> has index \" + mx::S(r.first[i].first) + \" and value \" + mx::S(r.first[i].second); });\n" % n
            b += "    const auto k = pigro::enumerate_n<%d>([]<class... I>(I &&...) { return mx::same<std::index_sequence<std::remove_cvref_t<I>::index...>, std::make_index_sequence<%d>>; }); CK(k); }\n" % (n, n)
        return Unit(d, "static void run(pbt::Ctx &c) {\n" + b + "}\n")
    if d["mode"] == "long":
        return Unit(d, "static void run(pbt::Ctx &c) {\n  const bool rv = c.chance(1, 2); std::vector<%s> a; for (int i = 0; i < %d; ++i) a.push_back(mx::El<%s>::make((mx::u32)c.draw(mx::El<%s>::D())));\n"
                       "  auto f = [&](auto &&...items) { const size_t idx[] = { size_t(items.index)... }; const void *adr[] = { std::addressof(items.value)... };\n"
                       "    for (size_t k = 0; k < sizeof...(items); ++k) c.checkf(idx[k] == k && adr[k] == std::addressof(a[k]), [&] { return \"item \" + mx::S(k) + \" of %d has index \" + mx::S(idx[k]) + \" or refers to another argument\"; });\n"
                       "    CK(mx::same<std::index_sequence<std::remove_cvref_t<decltype(items)>::index...>, std::make_index_sequence<sizeof...(items)>>); return sizeof...(items); };\n"
                       "  const auto n = [&]<size_t... i>(std::index_sequence<i...>) { return rv ? pigro::enumerate_pack(f, std::move(a[i])...) : pigro::enumerate_pack(f, a[i]...); }(std::make_index_sequence<%d>{});\n"
                       "  CK(n == %d); c.nontrivial = true; c.sayf([&] { return std::string(\"a pack of %d arguments\"); });\n}\n" % (d["t"], d["n"], d["t"], d["t"], d["n"], d["n"], d["n"], d["n"]))
    els = d["els"]
    n = len(els)
    s = "static void run(pbt::Ctx &c) {\n"
    for i, e in enumerate(els):
        if e["t"] == "bd::Pin": s += "  bd::Pin a%d; a%d.set(%d);\n" % (i, i, i)
        else: s += "  const mx::u32 w%d = (mx::u32)c.draw(mx::El<%s>::D()); %s a%d = mx::El<%s>::make(w%d);\n" % (i, e["t"], e["t"], i, e["t"], i)
    s += "  struct Seen { size_t index; const void *addr; const void *type; };\n  int calls = 0; std::vector<Seen> seen; bool idx = false;\n"
    s += "  auto f = [&calls, &seen, &idx, st = std::string(\"some captured state that is long\")](auto &&...items) %s -> decltype(auto) {\n" % ("mutable" if d["fn"] != "const" else "")
    s += "    ++calls; if (st != \"some captured state that is long\") calls = 100;\n"
    s += "    idx = mx::same<std::index_sequence<std::remove_cvref_t<decltype(items)>::index...>, std::make_index_sequence<%d>>;\n" % n
    s += "    seen = { Seen{ size_t(items.index), (const void *)std::addressof(items.value), &bd::tid<std::remove_cvref_t<decltype(items.value)>> }... };\n"
    s += "    return bd::ret<%d>(sizeof...(items));\n  };\n" % d["ret"]
    args = ", ".join(EXPR[e["cat"]] % ("a%d" % i) for i, e in enumerate(els))
    fx = "f" if d["fcat"] == "lv" else "std::move(f)"
    call = "pigro::enumerate_pack(%s%s)" % (fx, ", " + args if args else "")
    if d["ret"] == 1: s += "  CK(std::is_void_v<decltype(%s)>); %s;\n" % (call, call)
    else: s += "  decltype(auto) r = %s; CK(bd::right<%d>(r, %d)); CK(mx::same<decltype(r), bd::ret_t<%d>>);\n" % (call, d["ret"], n, d["ret"])
    s += "  CKM(\"the function is not called exactly once\", calls == 1); CK(seen.size() == %d); CKM(\"the compile-time indices are not 0, 1, 2, ...\", idx);\n" % n
    for i, e in enumerate(els):
        s += "  if (!c.failed) { c.sayf([&] { return std::string(\"argument %d (%s, %s)\"); }); CK(seen[%d].index == %d); CKM(\"item %d has another type\", seen[%d].type == &bd::tid<%s>); CKM(\"item %d does not refer to the argument itself\", seen[%d].addr == (const void *)std::addressof(a%d)); }\n" % (i, e["t"], e["cat"], i, i, i, i, e["t"], i, i, i)
    # the function itself is called, not a copy of it
    s += "  { ms::Count k;\n"
    s += "    const int q = pigro::enumerate_pack(k%s); CKM(\"a copy of the function is called\", q == 1 && k.n == 1 && k.copies == 0);\n" % (", " + ", ".join("a%d" % i for i in range(n)) if n else "")
    s += "    const int w = pigro::enumerate_n<%d>(k); CKM(\"a copy of the function is called\", w == 2 && k.n == 2 && k.copies == 0);\n" % n
    s += "    const int z = pigro::enumerate_pack(std::as_const(k)) + pigro::enumerate_n<%d>(std::as_const(k)); CKM(\"the function is not called as const\", z == -2 && k.n == 2); }\n" % n
    # rvalues can be moved out, lvalues changed
    s += "  int m = 0; pigro::enumerate_pack([&](auto &&...items) {\n    ([&](auto &&it) {\n      using I = std::remove_cvref_t<decltype(it)>; constexpr size_t i = I::index; ++m;\n"
    s += "      using V = decltype(it.value); using T = std::remove_cvref_t<V>; (void)i;\n"
    for i, e in enumerate(els):
        if e["t"] == "bd::Pin":
            if e["cat"] == "lv": s += "      if constexpr (i == %d) it.value.set(4711);\n" % i
            continue
        if e["cat"] == "rv": s += "      if constexpr (i == %d) { T x = std::forward<V>(it.value); c.check(mx::El<T>::code(x) == w%d, \"the value moved out of item %d is not the argument\"); }\n" % (i, i, i)
        elif e["cat"] == "lv" and not gb.is_empty(e["t"]): s += "      if constexpr (i == %d) { it.value = mx::El<T>::make(w%d + 1); }\n" % (i, i)
        else: s += "      if constexpr (i == %d) c.check(mx::El<T>::code(it.value) == w%d, \"item %d has another value\");\n" % (i, i, i)
    s += "    }(items), ...);\n  }%s);\n  CK(m == %d);\n" % (", " + args if args else "", n)
    for i, e in enumerate(els):
        if e["t"] == "bd::Pin":
            if e["cat"] == "lv": s += "  CK(a%d.read() == 4711);\n" % i
        elif e["cat"] == "lv" and not gb.is_empty(e["t"]): s += "  CKM(\"a change through item %d is not visible in the argument\", mx::El<%s>::code(a%d) == (w%d + 1) %% mx::El<%s>::D());\n" % (i, e["t"], i, i, e["t"])
        elif e["cat"] == "rv" and e["t"] == "std::unique_ptr<int>": s += "  CKM(\"the value was not moved\", !a%d);\n" % i
    s += "  c.nontrivial = %s;\n}\n" % ("true" if n > 1 else "false")
    return Unit(d, s)


def gen19(rng, tier, n):
    big = [dict(mode="long", n=rng.choice([257, 258, 270]), t=rng.choice(["int", "std::string"])), dict(mode="n", ns=[rng.choice([257, 300, 320])], fcat="lv")]
    return [unit19(d) for d in big] + [unit19(gen_unit19(rng)) for _ in range(n - 2)]


def shrink19(unit):
    d = unit.desc
    if d.get("mode") == "pack": yield from drop_el(d, unit19)
    elif d.get("mode") == "long":
        for n in (2, 16, 128, 257):
            if n < d["n"]: yield unit19(dict(d, n=n))
        if d["t"] != "int": yield unit19(dict(d, t="int"))
    elif d.get("mode") == "n" and len(d["ns"]) > 1:
        for n in d["ns"]: yield unit19(dict(d, ns=[n]))


# ---- C20 ------------------------------------------------------------------
STDT = {  # type: (integral, class, empty, reference, const)
    "int": (1, 0, 0, 0, 0), "const int": (1, 0, 0, 0, 1), "int &": (0, 0, 0, 1, 0), "void": (0, 0, 0, 0, 0), "char": (1, 0, 0, 0, 0), "double": (0, 0, 0, 0, 0), "std::string": (0, 1, 0, 0, 0),
    "val::Empty": (0, 1, 1, 0, 0), "mx::Em<0>": (0, 1, 1, 0, 0), "const val::Empty": (0, 1, 1, 0, 1), "int[3]": (0, 0, 0, 0, 0), "int[]": (0, 0, 0, 0, 0), "int(int)": (0, 0, 0, 0, 0), "int *": (0, 0, 0, 0, 0),
    "const std::string &&": (0, 0, 0, 1, 0), "std::unique_ptr<int>": (0, 1, 0, 0, 0), "val::FinalEmpty": (0, 1, 1, 0, 0), "bool": (1, 0, 0, 0, 0), "pigro::typelist<int, char>": (0, 1, 1, 0, 0), "pigro::typelist<>": (0, 1, 1, 0, 0),
    "mx::Abstract": (0, 1, 0, 0, 0), "pigro::type_<int>": (0, 1, 1, 0, 0),
}
TRAITS = ["std::is_integral", "std::is_class", "std::is_empty", "std::is_reference", "std::is_const"]


NUMS = [None, None, "int 2", "int 1", "int -1", "unsigned 4", "long 4294967296", "char 64", "size_t 256"]  # type of the value and what stands for true


def gen_list(rng, wild):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, rng.randint(0, 40)])
    if wild: return [rng.choice(list(STDT)) for _ in range(n)]
    return ["W<%d>" % rng.randint(0, 5 if rng.random() < 0.6 else 15) for _ in range(n)]


def gen_unit20(rng):
    items = []
    for _ in range(8):
        wild = rng.random() < 0.4
        if rng.random() < 0.25:
            items.append(dict(op="concat", lists=[gen_list(rng, rng.random() < 0.5) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]))
        else:
            items.append(dict(op="split", list=gen_list(rng, wild), trait=rng.choice(range(5)) if wild else None, mask=rng.choice([0, 65535, rng.getrandbits(16), rng.getrandbits(16), 1 << rng.randint(0, 5)]), num=rng.choice(NUMS)))
    return dict(items=items)


def unit20(d):
    s = "template<int I> struct W;\n"
    b = ""
    for k, it in enumerate(d["items"]):
        tl = lambda l: "pigro::typelist<%s>" % ", ".join(l)
        if it["op"] == "concat":
            flat = [t for l in it["lists"] for t in l]
            b += "  { constexpr auto r = pigro::concat(%s); CK(mx::same<decltype(r), const %s>); c.item(%s, \"concat of %d lists\"); }\n" % (", ".join(tl(l) + "{}" for l in it["lists"]), tl(flat), "true" if len(it["lists"]) > 1 else "false", len(it["lists"]))
            if len(it["lists"]) >= 2:
                b += "  { constexpr auto r = %s{} + %s{}; CK(mx::same<decltype(r), const %s>); }\n" % (tl(it["lists"][0]), tl(it["lists"][1]), tl(it["lists"][0] + it["lists"][1]))
            continue
        l = it["list"]
        if it["trait"] is None:
            s += "template<class T> struct Tr%d; template<int I> struct Tr%d<W<I>> { static constexpr %s value = (%dull >> I) & 1 ? %s : 0; };\n" % ((k, k) + ((lambda t, v: (t, it["mask"], v))(*(it.get("num") or "bool 1").split())))
            tr = "Tr%d" % k
            sat = [bool((it["mask"] >> int(t[2:-1])) & 1) for t in l]
        else:
            tr = TRAITS[it["trait"]]
            if tr == "std::is_empty": l = [t for t in l]
            sat = [bool(STDT[t][it["trait"]]) for t in l]
        yes = [t for t, x in zip(l, sat) if x]
        no = [t for t, x in zip(l, sat) if not x]
        nt = "true" if yes and no and len(l) > 2 else "false"
        b += "  { using T = %s; constexpr auto p = pigro::predicate<%s>; c.item(%s, \"split %d types into %d and %d\");\n" % (tl(l), tr, nt, len(l), len(yes), len(no))
        b += "    CKM(\"filter_if is wrong\", mx::same<decltype(pigro::filter_if(T{}, p)), %s>);\n" % tl(yes)
        b += "    CKM(\"filter_if with the negated predicate is wrong\", mx::same<decltype(pigro::filter_if(T{}, !p)), %s>);\n" % tl(no)
        b += "    CKM(\"filter_if with the twice negated predicate is wrong\", mx::same<decltype(pigro::filter_if(T{}, !!p)), %s>);\n" % tl(yes)
        b += "    CKM(\"partition is wrong\", mx::same<decltype(pigro::partition(T{}, p)), %s>);\n" % tl(yes + no)
        b += "    CKM(\"partition with the negated predicate is wrong\", mx::same<decltype(pigro::partition(T{}, !p)), %s>);\n" % tl(no + yes)
        b += "    CKM(\"partition_t is wrong\", mx::same<pigro::partition_t<%s%s>, %s>);\n" % (tr, "".join(", " + t for t in l), tl(yes + no))
        b += "    CKM(\"a typelist does not equal itself\", pigro::partition(T{}, p) == %s{});\n" % tl(yes + no)
        for t, x in list(zip(l, sat))[:6]:
            b += "    CK(bool(p(pigro::type_c<%s>)) == %s); CK(bool((!p)(pigro::type_c<%s>)) == %s); CK(bool((!!p)(pigro::type_c<%s>)) == %s); CK(bool((!!!p)(pigro::type_c<%s>)) == %s); CK(mx::same<typename decltype(pigro::type_c<%s>)::type, %s>);\n" % (
                t, str(x).lower(), t, str(not x).lower(), t, str(x).lower(), t, str(not x).lower(), t, t)
        b += "    constexpr auto lam = []<class U>(pigro::type_<U>) { return bool(%s<U>::value); }; CKM(\"filter_if with a lambda is wrong\", mx::same<decltype(pigro::filter_if(T{}, lam)), %s>);\n  }\n" % (tr, tl(yes))
    return Unit(d, s + "static void run(pbt::Ctx &c) {\n" + b + "}\n")


def gen20(rng, tier, n):
    return [unit20(gen_unit20(rng)) for _ in range(n)]


def shrink20(unit):
    d = unit.desc
    if "items" not in d: return
    if len(d["items"]) > 1:
        for it in d["items"]: yield unit20(dict(items=[it]))
        return
    it = d["items"][0]
    if it["op"] == "concat":
        for i in range(len(it["lists"])):
            yield unit20(dict(items=[dict(op="concat", lists=it["lists"][:i] + it["lists"][i + 1:])]))
        for i, l in enumerate(it["lists"]):
            for j in range(len(l)):
                h = copy.deepcopy(it); del h["lists"][i][j]; yield unit20(dict(items=[h]))
    else:
        for i in range(len(it["list"])):
            h = copy.deepcopy(it); del h["list"][i]; yield unit20(dict(items=[h]))


# ---- C21 ------------------------------------------------------------------
PROJ = {
    "same": ("{T}", "x", "mx::El<R>::code(r) == mx::El<T>::code(a)"),
    "cref": ("{T}", None, "mx::El<R>::code(r) == mx::El<T>::code(a)"),
    "code": ("mx::u32", "mx::El<T>::code(x)", "r == mx::El<T>::code(a)"),
    "tuple1": ("std::tuple<{T}>", "std::tuple<T>(x)", "mx::El<T>::code(std::get<0>(r)) == mx::El<T>::code(a)"),
    "pair": ("std::pair<{T}, int>", "std::pair<T, int>(x, 3)", "mx::El<T>::code(r.first) == mx::El<T>::code(a) && r.second == 3"),
    "vector": ("std::vector<{T}>", "std::vector<T>(1, x)", "r.size() == 1 && mx::El<T>::code(r[0]) == mx::El<T>::code(a)"),
    "tuple0": ("std::tuple<>", "std::tuple<>{}", "true"),
    "lit": ("const char *", None, "std::string(r) == \"literal\""),
    "opt": ("std::optional<{T}>", "std::optional<T>(x)", "r && mx::El<T>::code(*r) == mx::El<T>::code(a)"),
    "move": ("std::unique_ptr<int>", "std::make_unique<int>(mx::El<T>::code(x))", "r && *r == (int)mx::El<T>::code(a)"),
    "true": ("std::true_type", "std::true_type{}", "true"),
    "addr": ("const {T} *", "std::addressof(x)", "r == std::addressof(a)"),
    "ref": ("std::reference_wrapper<const {T}>", "std::reference_wrapper<const T>(x)", "std::addressof(r.get()) == std::addressof(a)"),
}
BOOLS = {"bool": ("true", "false"), "int": ("3", "0"), "int*": ("(int *)&c", "nullptr"), "std::optional<int>": ("std::optional<int>(0)", "std::nullopt"), "std::true_type": ("{}", None), "std::false_type": (None, "{}"),
         "double": ("0.25", "0.0"), "std::unique_ptr<int>": ("std::make_unique<int>(0)", "nullptr"), "const char*": ("\"\"", "nullptr"), "bd::Explicit2": ("true", "false"), "std::function<int(int)>": ("[](int) { return 0; }", "nullptr"), "long": ("1l << 40", "0")}


def gen_unit21(rng):
    x = rng.random()
    if x < 0.3:
        n = rng.choice([0, 1, 2, 3, 4, 6, 9, 12])
        kind = rng.choice(["tuple", "tuple", "tuple", "pair", "array"])
        if kind == "pair": n = 2
        t0 = rng.choice(["bool", "int", "std::optional<int>", "bd::Explicit2"])
        return dict(mode="any", kind=kind, els=[dict(t=t0 if kind == "array" else rng.choice(list(BOOLS)), k="v") for _ in range(n)])
    b = gb.bound_list(rng)
    while b["kind"] in ("args", "ct", "usr"): b = gb.bound_list(rng)
    els = b["els"]
    if x < 0.45: els, b["kind"] = [dict(t=rng.choice(["std::tuple<int,double,char>", "std::tuple<std::string>", "std::pair<int,int>", "std::tuple<std::pair<int,int>>", "std::array<int,3>", "std::tuple<>"]), k=rng.choice("vvr"))], "tuple"
    for e in els:
        if e["t"] in gt.MOVEONLY or "EmGreedy" in e["t"] or "Greedy" in e["t"] or "EmAmp" in e["t"]: e["t"] = "int"
    if b["kind"] == "array":
        for e in els: e["t"] = els[0]["t"]
    ps = [p for p in PROJ]
    pr = rng.choice(ps)
    return dict(mode="transform", kind=b["kind"], els=els, proj=[rng.choice(ps) if rng.random() < 0.5 else pr for _ in els], stateful=rng.random() < 0.4)


def unit21(d):
    els = d["els"]
    T = tuple_type(d)
    if d["mode"] == "any":
        s = "static void run(pbt::Ctx &c) {\n"
        n = len(els)
        s += "  bool truth[%d] = {}; bool any = false;\n  const auto mode = c.draw(3); const auto the = c.draw(%d);\n" % (n + 1, max(n, 1))
        init = []
        for i, e in enumerate(els):
            a, b = BOOLS[e["t"]]
            if a is None: s += "  truth[%d] = false;\n" % i; init.append("std::false_type{}")
            elif b is None: s += "  truth[%d] = true;\n" % i; init.append("std::true_type{}")
            else:
                s += "  truth[%d] = mode == 0 ? false : mode == 1 ? the == %d : c.chance(1, 2);\n" % (i, i)
                init.append("truth[%d] ? %s(%s) : %s(%s)" % (i, "X%d" % i, a, "X%d" % i, b))
            s += "  using X%d = %s; any |= truth[%d];\n" % (i, e["t"], i)
        s += "  %s t%s;\n" % (T, ("{%s}" if d["kind"] != "array" else "{ {%s} }") % ", ".join(init) if init else "{}")
        s += "  c.sayf([&] { std::string r = \"any of\"; for (int i = 0; i < %d; ++i) r += truth[i] ? \" true\" : \" false\"; return r; });\n" % n
        s += "  CK(mx::same<decltype(pigro::any(t)), bool>); c.check(pigro::any(t) == any, \"any is wrong\"); c.check(pigro::any(std::as_const(t)) == any, \"any of const is wrong\"); c.check(pigro::any(std::move(t)) == any, \"any of an rvalue is wrong\");\n"
        # with a predicate that decides by the address of the element
        s += "  bool pick[%d] = {}; bool pany = false; const void *adr[%d] = {};\n" % (n + 1, n + 1)
        for i in range(n): s += "  pick[%d] = mode == 0 ? false : mode == 1 ? the == %d : c.chance(1, 3); pany |= pick[%d]; adr[%d] = std::addressof(std::get<%d>(t));\n" % (i, i, i, i, i)
        s += "  bool foreign = false; const auto p = [&](const auto &x) { for (int i = 0; i < %d; ++i) if (adr[i] == (const void *)std::addressof(x)) return pick[i]; foreign = true; return false; };\n" % n
        if not any(e["t"] in ("std::true_type", "std::false_type") for e in els):
            s += "  c.check(pigro::any(t, p) == pany, \"any with a predicate is wrong\"); CKM(\"the predicate was given something else than an element\", !foreign);\n"
        s += "  c.check(pigro::any(t, [](const auto &) { return true; }) == %s, \"any with a predicate that is always true is wrong\"); c.check(!pigro::any(t, [](const auto &) { return false; }), \"any with a predicate that is always false is wrong\");\n" % ("true" if n else "false")
        s += "  c.nontrivial = %s;\n}\n" % ("true" if n > 1 else "false")
        return Unit(d, s)
    s = "struct Proj { static inline int calls = 0; static inline std::vector<const void *> seen; %s\n" % ("std::string st = \"kept and long enough to be on the heap\"; " if d["stateful"] else "")
    # one projection per element, selected by address
    s2 = "static void run(pbt::Ctx &c) {\n"
    for i, e in enumerate(els): s2 += "  const mx::u32 k%d = (mx::u32)c.draw(mx::El<%s>::D()); %s v%d = mx::El<%s>::make(k%d);\n" % (i, e["t"], e["t"], i, e["t"], i)
    init = ["std::move(v%d)" % i if e["k"] == "v" else "v%d" % i for i, e in enumerate(els)]
    s2 += "  %s t%s;\n" % (T, ("{%s}" if d["kind"] != "array" else "{ {%s} }") % ", ".join(init) if init else "{}")
    # the projection depends on the type only: use the one of the first element of that type
    by = {}
    for e, p in zip(els, d["proj"]): by.setdefault(e["t"], p)
    for t, p in by.items():
        res, ex, _ = PROJ[p]
        if p == "cref": s += "  const %s &operator()(const %s &x) const { ++calls; seen.push_back(std::addressof(x)); return x; }\n" % ("std::type_identity_t<%s>" % t, "std::type_identity_t<%s>" % t)
        elif p == "lit": s += "  const char (&operator()(const %s &x) const)[8] { ++calls; seen.push_back(std::addressof(x)); static const char l[8] = \"literal\"; return l; }\n" % ("std::type_identity_t<%s>" % t)
        else: s += "  %s operator()(const %s &x) const { ++calls; seen.push_back(std::addressof(x)); using T = %s; return %s; }\n" % (res.replace("{T}", t), "std::type_identity_t<%s>" % t, t, ex)
    if not by: s += "  int operator()(int) const { return 0; }\n"
    s += "};\n"
    want = [PROJ[by[e["t"]]][0].replace("{T}", e["t"]) for e in els]
    for how in ("t", "std::as_const(t)"):
        s2 += "  { Proj::calls = 0; Proj::seen.clear(); auto u = pigro::transform(%s, Proj{}); CKM(\"the projection is not applied exactly once to every element\", Proj::calls == %d); CKM(\"the result has another type\", mx::same<decltype(u), std::tuple<%s>>);\n" % (how, len(els), ", ".join(want))
        s2 += "    CKM(\"the projection is not applied to the original elements from first to last\", (Proj::seen == std::vector<const void *>{%s}));\n" % ", ".join("std::addressof(std::get<%d>(t))" % i for i in range(len(els)))
        for i, e in enumerate(els):
            chk = PROJ[by[e["t"]]][2]
            s2 += "    { using T = %s; using R = %s; (void)sizeof(T); const auto &a = std::get<%d>(t); const auto &r = std::get<%d>(u); c.check(bool(%s), \"element %d is not the projection of the original element\"); }\n" % (e["t"], want[i], i, i, chk, i)
        s2 += "  }\n"
    s2 += "  c.nontrivial = %s;\n}\n" % ("true" if len(els) > 1 or (els and els[0]["t"].startswith("std::")) else "false")
    return Unit(d, s + s2)


def gen21(rng, tier, n):
    return [unit21(gen_unit21(rng)) for _ in range(n)]


def shrink21(unit):
    d = unit.desc
    if "els" not in d: return
    for i in range(len(d["els"])):
        h = copy.deepcopy(d)
        del h["els"][i]
        if h["kind"] == "pair": h["kind"] = "tuple"
        if "proj" in h: del h["proj"][i]
        yield unit21(h)
