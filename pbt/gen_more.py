"""Generators for regular_void (C22), uncapture (C23), forwarding helpers (C24), concepts (C25)."""
import copy
from .core import Unit, numbers_up_to
from . import gen_tuple as gt
from . import gen_bind as gb
from .gen_misc import CATS, CATQ, CATN, EXPR, drop_el


# ---- C22 ------------------------------------------------------------------
def gen_unit22(rng):
    x = rng.random()
    chain = [rng.choice(["reg", "unreg"]) for _ in range(rng.choice([1, 1, 1, 2, 2, 2, 3, 4]))]
    if x < 0.6:
        n = rng.choice([0, 0, 1, 1, 2, 3, 4, gt.length(rng, 9)])
        return dict(mode="call", chain=chain, fn=rng.choice(["gen", "mut", "state", "final", "qual", "lambda", "ptr", "stdfn"]), ret=rng.choice([0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 9, 10]),
                    further=[dict(t=gb.vtype(rng), cat=rng.choice(["lv", "clv", "rv", "rv", "crv"])) for _ in range(n)], fcat=rng.choice(["rv", "lv", "clv"]))
    if x < 0.85:
        return dict(mode="state", chain=chain, f=rng.choice(["FState", "FFinal", "FLambda", "FConst"]), ret=rng.choice(["u64", "void", "void", "rv"]), fcat=rng.choice(["rv", "lv"]))
    return dict(mode="optional", slots=rng.choice([1, 2, 3, 4]), len=rng.choice([10, 30, 80]))


def chain_result(t, chain):
    """t: value | void | rv"""
    for x in chain:
        if x == "reg" and t == "void": t = "rv"
        elif x == "unreg" and t == "rv": t = "void"
    return t


def wrap(expr, chain):
    for x in chain: expr = "pigro::%s(%s)" % ({"reg": "regularized_void", "unreg": "unregularized_void"}[x], expr)
    return expr


def unit22(d):
    if d["mode"] == "optional":
        return Unit(d, "static void run(pbt::Ctx &c) { ms::optional_history<%d>(c, %d); }\n" % (d["slots"], d["len"]))
    if d["mode"] == "state":
        s = "static void run(pbt::Ctx &c) {\n  using bd::Ref; bd::Cell::external_copies = 0;\n  const mx::u64 kf = c.draw(1000);\n"
        s += {"FState": "  bd::FState f0{bd::Cell(kf)};\n", "FFinal": "  bd::FFinal f0{bd::Cell(kf)};\n", "FLambda": "  auto f0 = bd::lambda_state(kf);\n", "FConst": "  bd::FConst f0;\n"}[d["f"]]
        s += "  ms::To<%s, decltype(f0)> f{std::move(f0)};\n" % {"u64": "mx::u64", "void": "void", "rv": "pigro::regular_void"}[d["ret"]]
        s += "  auto w = %s;\n" % wrap("std::move(f)" if d["fcat"] == "rv" else "f", d["chain"])
        t = chain_result({"u64": "value"}.get(d["ret"], d["ret"]), d["chain"])
        s += "  CK(mx::same<decltype(w()), %s>);\n" % {"value": "mx::u64", "void": "void", "rv": "pigro::regular_void"}[t]
        s += "  using B = ms::Back<decltype(w)>;\n  bd::Histories<B, true> h(c); h.check_ext = [] {};\n"
        s += "  bd::Bound m; m.f = %s; m.owned.push_back(1);\n" % ("Ref{-1, false, 0}" if d["f"] == "FConst" else "Ref{h.m.fresh(kf), true}")
        s += "  h.add(std::make_unique<B>(B{std::move(w)}), m);\n  if (c.chance(1, 2)) { auto w2 = %s; bd::Bound m2 = m; %s h.add(std::make_unique<B>(B{std::move(w2)}), m2); }\n" % (
            wrap("f", d["chain"]) if d["fcat"] == "lv" else "std::as_const(h.slots[0].b->w)", "" if d["f"] == "FConst" else "m2.f.id = h.m.fresh(kf);")
        s += "  h.run([] {});\n}\n"
        return Unit(d, s)
    R = d["ret"]
    s = "static void run(pbt::Ctx &c) {\n"
    d13 = dict(fn=d["fn"], ret=R if R != 7 else 0, levels=[], further=d["further"])
    if R == 7: s += "  auto f = ms::AsRegularVoid{%s};\n" % gb.fn13(d13)
    else: s += "  auto f = %s;\n" % gb.fn13(d13)
    s += "  auto w = %s;\n" % wrap({"rv": "std::move(f)", "lv": "f", "clv": "std::as_const(f)"}[d["fcat"]], d["chain"])
    t = chain_result("rv" if R == 7 else "void" if R == 1 else "value", d["chain"])
    s += "  auto wcopy = w;\n  const mx::u32 n = (mx::u32)c.range(1, 4);\n  for (mx::u32 round = 0; round < n && !c.failed; ++round) {\n"
    args, ex = [], []
    fixed = d["fn"] in ("ptr", "stdfn")
    for i, e in enumerate(d["further"]):
        s += "    const mx::u32 w%d = (mx::u32)c.draw(mx::El<%s>::D()); %s a%d = mx::El<%s>::make(w%d);\n" % (i, e["t"], e["t"], i, e["t"], i)
        args.append(EXPR[e["cat"]] % ("a%d" % i))
        ex.append("bd::want<%s>(w%d%s)" % (e["t"], i, "" if fixed else ", %d, std::addressof(a%d)" % (CATN[e["cat"]], i)))
    s += "    const std::vector<bd::Arg> exp{%s}; bd::calls.clear(); auto &o = round %% 2 ? wcopy : w;\n" % ", ".join(ex)
    s += "    c.sayf([&] { std::string r = \"call: arguments\"; for (auto &a : exp) r += \" \" + mx::S(a.code); return r; });\n"
    call = "%s(%s)" % ("o", ", ".join(args))
    if t == "void": s += "    CKM(\"the result of a function that returns void is not void\", std::is_void_v<decltype(%s)>);\n    %s;\n    bd::compare(c, exp); CK(bd::global == bd::digest(exp));\n" % (call, call)
    elif t == "rv": s += "    CKM(\"the result of a function that returns void is not regular_void\", mx::same<decltype(%s), pigro::regular_void>);\n    auto r = %s; CK(r == pigro::regular_void{});\n    bd::compare(c, exp); CK(bd::global == bd::digest(exp));\n" % (call, call)
    else:
        s += "    CK(mx::same<std::remove_cvref_t<decltype(%s)>, std::remove_cvref_t<bd::ret_t<%d>>>);\n    auto &&r = %s;\n    if (bd::compare(c, exp)) c.check(bd::right_value<%d>(r, bd::digest(exp)), \"the result differs from that of a direct call\");\n" % (call, R, call, R)
    s += "    if (!exp.empty() || round) c.nontrivial = true;\n  }\n}\n"
    return Unit(d, s)


def gen22(rng, tier, n):
    return [unit22(gen_unit22(rng)) for _ in range(n)]


def shrink22(unit):
    d = unit.desc
    if d.get("mode") == "optional":
        for k in range(1, d["slots"]): yield unit22(dict(d, slots=k))
        return
    if "chain" not in d: return
    for i in range(len(d["chain"])):
        if len(d["chain"]) > 1:
            h = copy.deepcopy(d); del h["chain"][i]; yield unit22(h)
    if d["mode"] == "call":
        for i in range(len(d["further"])):
            h = copy.deepcopy(d); del h["further"][i]; yield unit22(h)
            if d["further"][i]["t"] != "int":
                h = copy.deepcopy(d); h["further"][i]["t"] = "int"; yield unit22(h)
        if d["fn"] != "gen": yield unit22(dict(d, fn="gen"))
        if d["ret"] not in (0, 1, 7): yield unit22(dict(d, ret=0))
    elif d["f"] != "FState": yield unit22(dict(d, f="FState"))


# ---- C23 ------------------------------------------------------------------
UV = [v for v in gt.VALUES]  # copyable
UVE = [e for e in gb.EMP]


def uvalue(rng):
    x = rng.random()
    if x < 0.25: return rng.choice(UVE)
    if x < 0.3: return "pigro::compressed_tuple<%s>" % ", ".join(rng.choice(gt.COMMON + gb.EMP) for _ in range(rng.choice([0, 1, 2])))
    return rng.choice(gt.COMMON if x < 0.6 else UV)


def gen_unit23(rng):
    x = rng.random()
    if x < 0.5:
        levels = []
        depth = rng.choice([1, 1, 1, 1, 2, 2, 3])
        same = rng.choice([None, None, None, "val::Empty", "int"])
        for _ in range(depth):
            n = rng.choice([0, 1, 1, 2, 2, 3, 4, gt.length(rng, 8)]) if depth == 1 else rng.choice([0, 1, 1, 2, 3])
            levels.append(dict(kind="ct", op="<<", cat="rv", els=[dict(t=same or uvalue(rng), k="v") for _ in range(n)], reuse=rng.random() < 0.3, fcat=rng.choice(["rv", "lv", "clv"])))
        fn = rng.choice(["gen", "lambda", "state", "qual", "mut", "stdfn", "stdfn"])
        return dict(mode="call", levels=levels, further=[dict(t=gb.vtype(rng), cat=rng.choice(["lv", "clv", "rv", "rv", "crv"])) for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3, 4, gt.length(rng, 8)]))],
                    fn=fn, ret=rng.choice(gb.RETS), const=fn != "mut" and rng.random() < 0.4)
    if x < 0.7:
        n = gt.length(rng, 10)
        same = rng.choice([None, None, "val::Empty", "mx::EmDerived<0>"])
        return dict(mode="size", els=[dict(t=same if same and rng.random() < 0.7 else uvalue(rng), k="v") for _ in range(n)], state=rng.choice([None, None, "int", "char", "std::string", "long"]), two=rng.random() < 0.3)
    n = rng.choice([0, 1, 1, 2, 2, 3])
    els = [dict(t=rng.choice([b for b in gb.BOUND if "unique" not in b]), k="v") for _ in range(n)]
    d = dict(mode="accepts", els=els, args=[])
    na = rng.choice([0, 1, 1, 2, 2, 3])
    base = [rng.choice(gb.ARGS) for _ in range(na)]
    d["fun"] = gb.dedupe(gb.gen_fun(rng, n + na, 1, base + [e["t"] for e in els]))
    seen = set()
    for _ in range(14):
        a = list(base)
        for i in range(len(a)):
            if rng.random() < 0.35: a[i] = rng.choice(gb.ARGS)
        x = rng.random()
        if x < 0.2: a.append(rng.choice(gb.ARGS))
        elif x < 0.35 and a: a.pop()
        elif x < 0.42: a = [rng.choice(gb.ARGS) for _ in range(rng.randint(0, 5))]
        if tuple(a) not in seen:
            seen.add(tuple(a))
            d["args"].append(a)
    return d


def unit23(d):
    if d["mode"] == "accepts":
        s = gb.fun_cpp(d["fun"], "F0")
        vs = [e["t"] for e in d["els"]]
        s += "using B = decltype(pigro::uncaptured(%s) >> std::declval<F0>());\n" % ", ".join("std::declval<%s>()" % v for v in vs)
        ln = [v if gb.is_empty(v) else v + " &" for v in vs]
        lc = [v if gb.is_empty(v) else "std::add_const_t<%s> &" % v for v in vs]
        b = ""
        for a in d["args"]:
            b += '  ms::uncapture_accepts<B, F0>(c, "(%s)", bd::L<%s>{}, bd::L<%s>{}, bd::L<%s>{});\n' % (", ".join(a), ", ".join(a), ", ".join(a + ln), ", ".join(a + lc))
        return Unit(d, s + "static void run(pbt::Ctx &c) {\n" + b + "}\n")
    if d["mode"] == "size":
        els = d["els"]
        st = d["state"]
        s = "struct F { %s template<class... A> int operator()(A &&...) const { return 1; } };\n" % ("%s st{};" % st if st else "")
        ne = [e["t"] for e in els if not gb.is_empty(e["t"])]
        prev = "char"
        chain = ([st] if st else [])
        s += "struct P0 { %s };\n" % ("%s st;" % st if st else "")
        last = "P0" if st else None
        for i, t in enumerate(reversed(ne)):
            s += "struct P%d { std::type_identity_t<%s> v; %s };\n" % (i + 1, t, "%s rest;" % last if last else "")
            last = "P%d" % (i + 1)
        mk = ", ".join("mx::El<%s>::make(0)" % e["t"] for e in els)
        if d["two"] and len(els) > 1:
            k = len(els) // 2
            m = ["mx::El<%s>::make(0)" % e["t"] for e in els]
            ex = "pigro::uncaptured(%s) >> (pigro::uncaptured(%s) >> F{})" % (", ".join(m[:k]), ", ".join(m[k:]))
        else: ex = "pigro::uncaptured(%s) >> F{}" % mk
        s += "using B = decltype(%s);\nstatic void run(pbt::Ctx &c) {\n  c.item(%s, \"%d values, %d of empty classes\");\n" % (ex, "true" if len(els) > 1 else "false", len(els), len(els) - len(ne))
        s += "  c.checkf(sizeof(B) <= %s, [&] { return \"size \" + mx::S(sizeof(B)) + \" instead of at most \" + mx::S(%s); });\n" % (("sizeof(%s)" % last,) * 2 if last else ("1", "1"))
        if not last: s += "  CKM(\"a function of empty values only is not empty\", std::is_empty_v<B>);\n"
        s += "  B b = %s; CK(b() == 1); CK(std::as_const(b)(2, 3) == 1);\n}\n" % ex
        return Unit(d, s)
    s = "static void run(pbt::Ctx &c) {\n"
    lv = d["levels"]
    for b in lv: b["cat"] = "clv" if d["const"] else "rv"
    s += "  auto f = %s;\n" % gb.fn13(d)
    prev = "f"
    for l, b in enumerate(lv):
        for i, e in enumerate(b["els"]):
            s += "  const mx::u32 k%d_%d = (mx::u32)c.draw(mx::El<%s>::D()); %s v%d_%d = mx::El<%s>::make(k%d_%d);\n" % (l, i, e["t"], e["t"], l, i, e["t"], l, i)
        vs = ", ".join(["v%d_%d", "std::move(v%d_%d)", "std::as_const(v%d_%d)"][(l + i) % 3] % (l, i) for i in range(len(b["els"])))
        fx = {"rv": "std::move(%s)", "lv": "%s", "clv": "std::as_const(%s)"}[b["fcat"]] % prev
        if b["reuse"]: s += "  auto u%d = pigro::uncaptured(%s); auto o%d = u%d >> [](auto &&...) { return 0; }; auto b%d = u%d >> %s; CK(o%d() == 0);\n" % (l, vs, l, l, l, l, fx, l)
        else: s += "  auto b%d = pigro::uncaptured(%s) >> %s;\n" % (l, vs, fx)
        prev = "b%d" % l
    s += "  auto copy = %s;\n  const mx::u32 n = (mx::u32)c.range(1, 4);\n  for (mx::u32 round = 0; round < n && !c.failed; ++round) {\n" % prev
    fs, ex = [], []
    fixed = d["fn"] == "stdfn"
    for i, e in enumerate(d["further"]):
        s += "    const mx::u32 w%d = (mx::u32)c.draw(mx::El<%s>::D()); %s a%d = mx::El<%s>::make(w%d);\n" % (i, e["t"], e["t"], i, e["t"], i)
        fs.append(EXPR[e["cat"]] % ("a%d" % i))
    for l, i in gb.order(d):
        if l >= 0: ex.append("bd::want<%s>(k%d_%d)" % (lv[l]["els"][i]["t"], l, i))
        else:
            e = d["further"][i]
            ex.append("bd::want<%s>(w%d%s)" % (e["t"], i, "" if fixed else ", %d, std::addressof(a%d)" % (CATN[e["cat"]], i)))
    s += "    const std::vector<bd::Arg> exp{%s};\n    bd::calls.clear(); auto &o = round %% 2 ? copy : %s;\n" % (", ".join(ex), prev)
    call = "%s(%s)" % ("std::as_const(o)" if d["const"] else "o", ", ".join(fs))
    s += "    c.sayf([&] { std::string r = \"call: arguments\"; for (auto &a : exp) r += \" \" + mx::S(a.code); return r; });\n"
    s += "    CK(mx::same<decltype(%s), bd::ret_t<%d>>);\n" % (call, d["ret"])
    if d["ret"] == 1: s += "    %s;\n    if (bd::compare(c, exp)) CKM(\"result\", bd::global == bd::digest(exp));\n" % call
    else: s += "    decltype(auto) r = %s;\n    if (bd::compare(c, exp)) c.check(bd::right<%d>(r, bd::digest(exp)), \"the result differs from that of a direct call\");\n" % (call, d["ret"])
    s += "    if (round && exp.size() > 1) c.nontrivial = true;\n  }\n}\n"
    return Unit(d, s)


def gen23(rng, tier, n):
    return [unit23(gen_unit23(rng)) for _ in range(n)]


def shrink23(unit):
    d = unit.desc
    if d.get("mode") == "accepts":
        if len(d["args"]) > 1:
            for a in d["args"]:
                h = copy.deepcopy(d); h["args"] = [a]; yield unit23(h)
            return
        if len(d["fun"]["ops"]) > 1:
            for j in range(len(d["fun"]["ops"])):
                h = copy.deepcopy(d); del h["fun"]["ops"][j]; yield unit23(h)
    if "els" in d: yield from drop_el(d, unit23)
    if "levels" in d:
        for l in range(len(d["levels"])):
            if len(d["levels"]) > 1:
                h = copy.deepcopy(d); del h["levels"][l]; yield unit23(h)
            for i, e in enumerate(d["levels"][l]["els"]):
                h = copy.deepcopy(d); del h["levels"][l]["els"][i]; yield unit23(h)
                if e["t"] != "int": h = copy.deepcopy(d); h["levels"][l]["els"][i]["t"] = "int"; yield unit23(h)
        for i, e in enumerate(d["further"]):
            h = copy.deepcopy(d); del h["further"][i]; yield unit23(h)
            if e["t"] != "int": h = copy.deepcopy(d); h["further"][i]["t"] = "int"; yield unit23(h)
        if d["fn"] != "gen": yield unit23(dict(copy.deepcopy(d), fn="gen"))


# ---- C24 ------------------------------------------------------------------
CV = ["", "const", "volatile", "const volatile"]
REFS = ["", "&", "&&"]


ARRAYS = ["int[3]", "char[2][3]", "std::string[2]"]


def gen_unit24(rng):
    items = []
    for _ in range(10):
        x = rng.random()
        t = rng.choice([gb.vtype(rng), gb.vtype(rng), "bd::Pin", "mx::Abstract2", rng.choice(ARRAYS)])
        like = rng.choice([gb.vtype(rng), "bd::Pin", "int", "mx::Abstract2", "val::Empty", "int[2]"])
        if x < 0.4: items.append(dict(op="like", t=t, like=like, lcv=rng.choice(CV), lref=rng.choice(REFS), src=rng.choice(["lv", "lv", "lv", "rv", "clv", "vlv", "crv"])))
        elif x < 0.65: items.append(dict(op="nonconst", t=t, cv=rng.choice(CV), ref=rng.choice(["&", "&&"]), write=rng.random() < 0.5))
        elif x < 0.9: items.append(dict(op="capture", t=gb.vtype(rng), cat=rng.choice(CATS), macro=rng.random() < 0.5))
        elif x < 0.92: items.append(dict(op="arr", t=rng.choice(ARRAYS), cat=rng.choice(["lv", "clv"])))
        else: items.append(dict(op="rebind", ts=[rng.choice(["int", "void", "const int &", "std::string &&", "bd::Pin", "val::Empty", "int[3]", "std::tuple<int>", "mx::Abstract2"]) for _ in range(rng.choice([0, 1, 2, 3, 6]))],
                                a=rng.choice(["pigro::typelist", "std::tuple", "bd::L", "ms::Box"]), b=rng.choice(["pigro::typelist", "std::tuple", "bd::L", "ms::Box"])))
    return dict(items=items)


def unit24(d):
    b = ""
    for k, it in enumerate(d["items"]):
        b += "  if (!c.failed) {\n"
        if it["op"] == "rebind":
            l = ", ".join(it["ts"])
            b += "    c.item(%s, \"rebind_container_t\"); CK(mx::same<pigro::rebind_container_t<%s<%s>, %s>, %s<%s>>); CK(mx::same<typename pigro::rebind_container<%s<%s>, %s>::type, %s<%s>>);\n  }\n" % (
                "true" if it["ts"] else "false", it["a"], l, it["b"], it["b"], l, it["a"], l, it["b"], it["b"], l)
            continue
        t = it["t"]
        if it["op"] == "arr":
            cq = "const " if it["cat"] == "clv" else ""
            b += "    ms::Holder<%s> h; auto &x = h.x; c.item(true, \"fwd_capture of an array\"); auto cap = pigro::fwd_capture(%s);\n" % (t, EXPR[it["cat"]] % "x")
            for e in ("cap", "std::as_const(cap)", "std::move(cap)"):
                b += "    CKM(\"access to a captured array has another type\", mx::same<decltype(pigro::access(%s)), %sstd::type_identity_t<%s> &>); CKM(\"access does not give back the captured array\", ms::address(pigro::access(%s)) == ms::address(x));\n" % (e, cq, t, e)
            b += "  }\n"
            continue
        if it["op"] == "like":
            lt = ("%s %s%s" % (it["lcv"], it["like"], " " + it["lref"])).strip()
            src = it["src"]
            T = t + (" const" if src in ("clv", "crv") else " volatile" if src == "vlv" else "")
            if src in ("rv",) and it["lref"] == "&": src = "lv"  # an rvalue is never made an lvalue
            if src in ("clv", "crv") and "const" not in it["lcv"]: it_lcv = ("const " + it["lcv"]).strip()
            elif src == "vlv" and "volatile" not in it["lcv"]: it_lcv = (it["lcv"] + " volatile").strip()
            else: it_lcv = it["lcv"]
            if src == "crv" and it["lref"] == "&": src = "clv"
            lt = ("%s std::type_identity_t<%s> %s" % (it_lcv, it["like"], it["lref"])).strip()
            want = "%s std::type_identity_t<%s> %s" % (it_lcv, t, "&" if it["lref"] == "&" else "&&")
            if it["like"] == "mx::Abstract2" and it["lref"] == "": pass
            b += "    ms::Holder<%s> h; auto &x = h.x; using Like = %s; using Want = %s; const void *adr = ms::address(x);\n" % (t, lt, want)
            ex = {"lv": "x", "rv": "std::move(x)", "clv": "std::as_const(x)", "crv": "std::move(std::as_const(x))", "vlv": "const_cast<volatile std::type_identity_t<%s> &>(x)" % t}[src]
            b += "    c.item(%s, \"forward_like: %s as %s\");\n" % ("true" if it_lcv or it["lref"] else "false", src, (it_lcv + " " + it["lref"]).strip() or "value")
            b += "    CKM(\"forward_like<%s>(%s) has another type\", mx::same<decltype(pigro::forward_like<Like>(%s)), Want>);\n" % ((it_lcv + " Like " + it["lref"]).strip(), src, ex)
            b += "    auto &&r = pigro::forward_like<Like>(%s); CKM(\"forward_like does not refer to the original object\", ms::address(r) == adr);\n" % ex
            b += "    CK(noexcept(pigro::forward_like<Like>(%s)));\n" % ex
        elif it["op"] == "nonconst":
            src = "static_cast<%s std::type_identity_t<%s> %s>(x)" % (it["cv"], t, it["ref"])
            b += "    ms::Holder<%s> h; auto &x = h.x; const void *adr = ms::address(x); c.item(%s, \"as_nonconst: %s %s\");\n" % (t, "true" if it["cv"] else "false", it["cv"], it["ref"])
            b += "    CKM(\"as_nonconst has another type (%s %s)\", mx::same<decltype(pigro::as_nonconst(%s)), std::type_identity_t<%s> %s>); CK(noexcept(pigro::as_nonconst(%s)));\n" % (it["cv"], it["ref"], src, t, it["ref"], src)
            b += "    auto &&r = pigro::as_nonconst(%s); CKM(\"as_nonconst does not refer to the original object\", ms::address(r) == adr);\n" % src
            if it["write"] and t not in ["bd::Pin", "mx::Abstract2"] + ARRAYS and not gb.is_empty(t):
                b += "    const mx::u32 w = (mx::u32)c.draw(mx::El<%s>::D()); r = mx::El<%s>::make(w); CKM(\"a write through as_nonconst is lost\", mx::El<%s>::code(x) == w);\n" % (t, t, t)
        else:
            V = "std::type_identity_t<%s>" % t
            cat = it["cat"]
            b += "    const mx::u32 w = (mx::u32)c.draw(mx::El<%s>::D()); %s x = mx::El<%s>::make(w); c.item(true, \"fwd_capture of a %s\");\n" % (t, V, t, cat)
            if it["macro"]: b += "    using namespace pigro; auto mk = [](auto &&y) { return FWD_CAPTURE(y); };\n"
            else: b += "    auto mk = [](auto &&y) { return pigro::fwd_capture(std::forward<decltype(y)>(y)); };\n"
            moveonly = t in gt.MOVEONLY
            if moveonly and cat == "crv": cat = "rv"
            ex = EXPR[cat] % "x"
            b += "    auto cap = mk(%s);\n" % ex
            if cat in ("lv", "clv"):
                cq = "const " if cat == "clv" else ""
                for e in ("cap", "std::as_const(cap)", "std::move(cap)"):
                    b += "    CKM(\"access to a captured lvalue has another type\", mx::same<decltype(pigro::access(%s)), %s%s &>); CKM(\"access does not give back the captured object\", std::addressof(pigro::access(%s)) == std::addressof(x));\n" % (e, cq, V, e)
                if cat == "lv" and not gb.is_empty(t): b += "    const mx::u32 u = (mx::u32)c.draw(mx::El<%s>::D()); pigro::access(cap) = mx::El<%s>::make(u); CK(mx::El<%s>::code(x) == u);\n" % (t, t, t)
            else:
                cq = "const " if cat == "crv" else ""
                for e, q in (("cap", cq + V + " &"), ("std::as_const(cap)", "const %s &" % V), ("std::move(cap)", cq + V + " &&"), ("std::move(std::as_const(cap))", "const %s &&" % V)):
                    b += "    CKM(\"access to a captured rvalue has another type\", mx::same<decltype(pigro::access(%s)), %s>); c.check(mx::El<%s>::code(pigro::access(%s)) == w, \"access does not give back the captured value\");\n" % (e, q, t, e)
                if cat == "rv":
                    if moveonly: b += "    CKM(\"an rvalue is not moved into the capture\", !x);\n"
                    elif not gb.is_empty(t): b += "    x = mx::El<%s>::make(w + 1); CKM(\"a captured rvalue is not independent of the original\", mx::El<%s>::code(pigro::access(cap)) == w);\n" % (t, t)
                    b += "    { auto y = std::move(cap); %s z = pigro::access(std::move(y)); CK(mx::El<%s>::code(z) == w); }\n" % (V, t)
        b += "  }\n"
    # fixed facts about the indices
    b += "  { using namespace pigro; CK(mx::same<std::remove_const_t<decltype(idx<%d>)>, std::integral_constant<size_t, %d>> && mx::same<idx_t<%d>, std::integral_constant<size_t, %d>> && idx<%d> == %d); }\n" % ((len(d["items"]),) * 6)
    return Unit(d, "static void run(pbt::Ctx &c) {\n" + b + "  c.nontrivial = c.nt_items > 0;\n}\n")


def gen24(rng, tier, n):
    return [unit24(gen_unit24(rng)) for _ in range(n)]


def shrink24(unit):
    d = unit.desc
    if len(d.get("items", [])) > 1:
        for it in d["items"]: yield unit24(dict(items=[copy.deepcopy(it)]))
    elif "items" in d:
        it = d["items"][0]
        for k, v in (("t", "int"), ("like", "int"), ("lcv", ""), ("cv", "")):
            if it.get(k, v) != v:
                h = copy.deepcopy(it); h[k] = v; yield unit24(dict(items=[h]))


# ---- C25 ------------------------------------------------------------------
QUALS = ["%s", "const %s", "volatile %s", "const volatile %s", "%s &", "const %s &", "%s &&", "const %s &&", "volatile %s &", "const volatile %s &&"]
NONTUPLE = ["int", "void", "char *", "std::string", "std::vector<int>", "std::optional<int>", "val::Empty", "val::FinalEmpty", "int(int)", "int (*)(int)", "int[3]", "int[]", "val::Color", "std::variant<int, char>", "Inc",
            "mx::Abstract", "std::unique_ptr<int>", "std::nullptr_t", "int Fields::*", "int (Fields::*)()", "std::function<int(int)>", "Uni", "std::reference_wrapper<std::tuple<int>>", "DerivedTuple", "DerivedCt", "float", "std::integral_constant<int, 3>"]
TUPLES = ["std::tuple<>", "std::tuple<int>", "std::tuple<int &, const char &&>", "std::pair<int, std::string>", "std::array<int, 3>", "std::array<std::string, 0>", "pigro::compressed_tuple<>", "pigro::compressed_tuple<int>",
          "pigro::compressed_tuple<int, val::Empty, std::string>", "std::tuple<std::unique_ptr<int>, std::tuple<>>", "pigro::compressed_tuple<int &>", "std::ranges::subrange<int *>", "pigro::compressed_tuple<pigro::compressed_tuple<>>"]
PRE25 = """struct Inc; union Uni { int a; char b; }; struct Fields { int a = 0; int b() { return 1; } };
struct DerivedTuple : std::tuple<int> { using std::tuple<int>::tuple; }; struct DerivedCt : pigro::compressed_tuple<int> { };
"""


def gen_type_empty(rng, k):
    """a generated class with the facts about it"""
    m, empty, final = [], True, rng.random() < 0.2
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        x = rng.choice(["static int s%d;", "void f%d() const {}", "using t%d = int;", "enum e%d { x%d };", "int m%d;", "val::Empty m%d;", "virtual void v%d() {}", "int : 0;", "int b%d : 3;", "template<class T> void g%d(T) {}", "struct In%d { int q; };", "static constexpr double c%d = 1;", "char arr%d[2];", "int &r%d;"])
        i = len(m)
        m.append(x.replace("%d", "%d_%d" % (k, i)))
        if x.startswith(("int m", "val::Empty m", "virtual", "int b", "char arr", "int &r")): empty = False
    base = rng.choice([None, None, None, "val::Empty", "mx::Em<0>", "Fields", "std::tuple<>", "virtual val::Empty", "mx::Em<1>, val::Empty2"])
    if base in ("Fields", "virtual val::Empty"): empty = False
    align = rng.random() < 0.1
    return dict(members=m, base=base, final=final, empty=empty, align=align)


def gen_unit25(rng):
    items = []
    for k in range(12):
        x = rng.random()
        q = rng.choice(QUALS)
        if x < 0.12: items.append(dict(op="tuple", t=rng.choice(TUPLES), q=q, want=True))
        elif x < 0.24: items.append(dict(op="tuple", t=rng.choice(NONTUPLE), q=q, want=False))
        elif x < 0.42:
            n = rng.choice([0, 1, 2, 3, 4, 5, 8])
            items.append(dict(op="user", n=n, size=rng.choice(["ic", "ic", "ic", "members", "notype", "novalue", "int", "none"]), missing=rng.choice([None, None, None] + list(range(n))), partial=rng.choice(["none", "empty"]), q=q, two=rng.random() < 0.3))
        elif x < 0.6: items.append(dict(op="empty", cls=gen_type_empty(rng, k), q=q))
        elif x < 0.66: items.append(dict(op="emptystd", t=rng.choice(["int", "void", "int *", "int[3]", "int(int)", "std::string", "Uni", "val::Color", "std::less<>", "std::tuple<>", "std::array<int, 0>", "val::FinalEmpty", "Lambda", "Capture", "pigro::compressed_tuple<>",
                                         "pigro::compressed_tuple<val::Empty, mx::Em<0>>", "pigro::compressed_tuple<int>", "std::nullptr_t", "int Fields::*"]), q=q))
        elif x < 0.78:
            items.append(dict(op="result", value=rng.choice(["int value;", "int value;", "std::string value;", "int &value;", "static int value;", "const int value;", "", "int Value;", "private: int value; public:", "std::unique_ptr<int> value;"]),
                              changed=rng.choice(["bool is_changed;", "bool is_changed;", "std::true_type is_changed;", "static constexpr bool is_changed = true;", "", "bool changed;", "protected: bool is_changed; public:"]), base=rng.random() < 0.2, q=q))
        elif x < 0.9:
            items.append(dict(op="function", form=rng.choice(["op", "op", "op", "fp", "lambda", "generic", "lazy", "none", "stdfn"]), ret=rng.choice(["Res<int>", "Res<int>", "Res<std::string> &", "const Res<int> &", "Res<int> *", "int", "void", "Half", "std::optional<Res<int>>", "Res<int> &&"]),
                              param=rng.choice(["std::nullptr_t", "std::nullptr_t", "void *", "const int *", "int", "", "std::nullptr_t, int", "std::nullptr_t, int = 3", "std::nullptr_t &", "const std::nullptr_t &", "auto &&", "std::string", "std::shared_ptr<int>", "bool"]),
                              q=rng.choice(["", "const", "", "const", "&", "const &", "&&"]), use=rng.choice(["%s", "%s &", "const %s &", "const %s", "%s &&"])))
        elif x < 0.95: items.append(dict(op="ct", t=rng.choice(TUPLES + NONTUPLE + ["pigro::compressed_tuple<int>", "pigro::compressed_tuple<std::tuple<>>"]), q=q))
        else: items.append(dict(op="shift", k=rng.randint(0, 6)))
    return dict(items=items)


def qualify(q, t):
    """a valid qualification of this type, for types that cannot be qualified in every way"""
    if t == "void" and "&" in q: q = "%s"
    return q % ("std::type_identity_t<%s>" % t)


# accepted by a function with this parameter, called with nullptr
NULLPTR = {"std::nullptr_t": 1, "void *": 1, "const int *": 1, "int": 0, "": 0, "std::nullptr_t, int": 0, "std::nullptr_t, int = 3": 1, "std::nullptr_t &": 0, "const std::nullptr_t &": 1, "auto &&": 1, "std::string": None, "std::shared_ptr<int>": 1, "bool": 0}
RES = {"Res<int>": 1, "Res<std::string> &": 1, "const Res<int> &": 1, "Res<int> *": 0, "int": 0, "void": 0, "Half": 0, "std::optional<Res<int>>": 0, "Res<int> &&": 1}


def unit25(d):
    s = PRE25 + "template<class T> struct Res { T value; bool is_changed; }; struct Half { int value; };\nusing Lambda = decltype([](int) { return 1; }); inline auto cap = [q = 3](int) { return q; }; using Capture = decltype(cap);\n"
    g = ""  # specialisations, in the global namespace
    b = ""
    for k, it in enumerate(d["items"]):
        op = it["op"]
        want = None
        if op == "shift":
            b += "  { using namespace pigro; c.item(true, \"other uses of << and >>\");\n"
            b += ["    CK((1 << 2) == 4 && (256 >> 3) == 32);", "    std::ostringstream o; o << 1 << \"a\" << std::string(\"b\") << 'c'; CK(o.str() == \"1abc\"); std::istringstream i(\"7 x\"); int n; std::string t; i >> n >> t; CK(n == 7 && t == \"x\");",
                  "    CK(((std::byte(1) << 3) == std::byte(8)) && ((std::byte(8) >> 1) == std::byte(4)));", "    enum E { e1 = 1, e2 }; CK((e2 << 3) == 16); CK((e2 >> 1) == 1);",
                  "    Shift x{ 5 }; CK((x << 3).v == 8); CK((x >> 3).v == 2); CK((x << x).v == 10);", "    std::ostringstream o; o << Shift{ 4 } << '!'; CK(o.str() == \"4!\");",
                  "    Shift x{ 5 }; const int f = 2; CK((x << f).v == 7); CK((x >> std::as_const(f)).v == 3);"][it["k"]] + "\n  }\n"
            continue
        if op == "tuple":
            expr, want, name = "pigro::concepts::tuple_like<%s>" % qualify(it["q"], it["t"]), it["want"], "tuple_like"
        elif op == "ct":
            expr, want, name = "pigro::concepts::compressed_tuple<%s>" % qualify(it["q"], it["t"]), it["t"].startswith("pigro::compressed_tuple<"), "compressed_tuple"
        elif op == "user":
            n = it["n"]
            s += "struct T%d { %s };\n" % (k, "int get();" if it["two"] else "")
            size = {"ic": "template<> struct std::tuple_size<@T%d> : std::integral_constant<std::size_t, %d> {};", "members": "template<> struct std::tuple_size<@T%d> { using type = std::tuple_size<@T%d>; static constexpr std::size_t value = %d; };",
                    "notype": "template<> struct std::tuple_size<@T%d> { static constexpr std::size_t value = %d; };", "novalue": "template<> struct std::tuple_size<@T%d> { using type = int; };",
                    "int": "template<> struct std::tuple_size<@T%d> : std::integral_constant<int, %d> {};", "none": ""}[it["size"]]
            if it["size"] == "members": g += size % (k, k, n) + "\n"
            elif it["size"] == "novalue": g += size % k + "\n"
            elif size: g += size % (k, n) + "\n"
            for i in range(n):
                if i == it["missing"]:
                    if it["partial"] == "empty": g += "template<> struct std::tuple_element<%d, @T%d> {};\n" % (i, k)
                    continue
                g += "template<> struct std::tuple_element<%d, @T%d> { using type = %s; };\n" % (i, k, ["int", "std::string", "val::Empty &"][i % 3])
            missing = it["missing"] is not None and it["missing"] < n
            want = it["size"] in ("ic", "members") and not missing
            expr, name = "pigro::concepts::tuple_like<%s>" % qualify(it["q"], "T%d" % k), "tuple_like"
        elif op == "empty":
            cl = it["cls"]
            s += "struct %sC%d %s%s { %s };\n" % ("alignas(64) " if cl["align"] else "", k, "final " if cl["final"] else "", ": " + cl["base"] if cl["base"] else "", " ".join(cl["members"]))
            if cl["members"] and any("int &r" in m for m in cl["members"]): pass
            expr, want, name = "pigro::concepts::empty<%s>" % qualify(it["q"], "C%d" % k), cl["empty"] and not cl["final"], "empty"
        elif op == "emptystd":
            t = it["t"]
            want = t in ("std::less<>", "std::tuple<>", "Lambda", "pigro::compressed_tuple<>", "pigro::compressed_tuple<val::Empty, mx::Em<0>>")
            if t == "std::array<int, 0>": want = None; expr = "pigro::concepts::empty<%s> == std::is_empty_v<%s>" % (qualify(it["q"], t), t); want = True
            else: expr = "pigro::concepts::empty<%s>" % qualify(it["q"], t)
            name = "empty"
        elif op == "result":
            mem = "%s %s" % (it["value"], it["changed"])
            if it["base"]: s += "struct RB%d { %s }; struct R%d : RB%d {};\n" % (k, mem, k, k)
            else: s += "struct R%d { %s };\n" % (k, mem)
            want = " value" in it["value"].replace("&value", " value") and "private" not in it["value"] and "is_changed" in it["changed"] and "protected" not in it["changed"]
            want = bool(want)
            q = it["q"]
            expr, name = "pigro::concepts::lazy_result<%s>" % qualify(q, "R%d" % k), "lazy_result"
        else:
            form, ret, par, q, use = it["form"], it["ret"], it["param"], it["q"], it["use"]
            ok = NULLPTR[par]
            if ok is None: par, ok = "std::nullptr_t", 1
            ref = "&" in ret
            body = "{ return *static_cast<std::remove_reference_t<%s> *>(nullptr); }" % ret if ret.endswith(" &") else ";"
            T = "Fn%d" % k
            if form == "none": s += "struct %s { int x; };\n" % T; want = False
            elif form == "op": s += "struct %s { %s operator()(%s) %s; };\n" % (T, ret, par, q)
            elif form == "fp":
                if par == "auto &&": par = "void *"
                s += "using %s = %s (*)(%s);\n" % (T, ret, par.replace(" = 3", "")); q = "const"
                if "= 3" in par: ok = 0
            elif form == "stdfn":
                if par in ("auto &&", "std::nullptr_t, int = 3"): par, ok = "void *", 1
                s += "using %s = std::function<%s(%s)>;\n" % (T, ret, par); q = "const"
            elif form == "lambda":
                s += "inline auto l%d = [](%s) %s -> %s { throw 1; }; using %s = decltype(l%d);\n" % (k, par, "mutable" if q == "" else "", ret, T, k); q = "" if q == "" else "const"
                # without captures, a lambda converts to a function pointer, which is called instead
                if q == "" : q = "const" if par != "auto &&" else q
                s = s.replace("mutable -> %s { throw 1; }; using %s" % (ret, T), "-> %s { throw 1; }; using %s" % (ret, T)); q = "const"
            elif form == "generic":
                s += "struct %s { template<class T> requires(std::is_null_pointer_v<std::remove_cvref_t<T>>) %s operator()(T &&) %s; };\n" % (T, ret, q); ok = 1
            elif form == "lazy":
                s += "using %s = decltype(pigro::lazy([](int x) { return x; }, 3));\n" % T
            if form == "lazy":
                use = use.replace("const ", "")
                expr, want, name = "pigro::concepts::lazy_function<%s>" % (use % ("std::type_identity_t<%s>" % T)), True, "lazy_function"
            else:
                if want is None:
                    want = bool(ok and RES[ret])
                    cst = "const" in use
                    if cst and "const" not in q: want = False
                    if q == "&&": want = False  # called as lvalue
                expr, name = "pigro::concepts::lazy_function<%s>" % (use % ("std::type_identity_t<%s>" % T)), "lazy_function"
        txt = expr.replace("std::type_identity_t", "").replace('"', "'")
        b += "  c.item(%s, \"%s\"); CKM(\"%s is %s for %s\", bool(%s) == %s);\n" % ("true" if want else "false", txt, name, "false" if want else "true", txt.replace("pigro::concepts::", ""), expr, "true" if want else "false")
    s += """struct Shift { int v; friend Shift operator<<(Shift a, int b) { return { a.v + b }; } friend Shift operator>>(Shift a, int b) { return { a.v - b }; } friend Shift operator<<(Shift a, Shift b) { return { a.v + b.v }; }
  friend std::ostream &operator<<(std::ostream &o, const Shift &s) { return o << s.v; } };
"""
    return Unit(d, s + ("} // @NS\n" + g + "namespace @NS {\n" if g else "") + "static void run(pbt::Ctx &c) {\n" + b + "}\n")


def gen25(rng, tier, n):
    return [unit25(gen_unit25(rng)) for _ in range(n)]


def shrink25(unit):
    d = unit.desc
    if len(d.get("items", [])) > 1:
        for it in d["items"]: yield unit25(dict(items=[copy.deepcopy(it)]))
    elif "items" in d:
        it = d["items"][0]
        if it.get("q", "%s") != "%s" and it["op"] != "function":
            h = copy.deepcopy(it); h["q"] = "%s"; yield unit25(dict(items=[h]))
