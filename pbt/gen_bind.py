"""Generators for bound functions (C13, C14, C15)."""
import copy
from .core import Unit, numbers_up_to
from . import gen_tuple as gt

EMP = gt.EMPTIES + ["std::integral_constant<size_t,0>", "std::integral_constant<size_t,1>", "std::integral_constant<int,3>"]
RETS = [0, 1, 2, 3, 4, 5, 6, 8, 9, 10]
OBJ = ["bd::Obj", "bd::Obj*", "std::reference_wrapper<bd::Obj>"]


def vtype(rng, moveonly=True):
    x = rng.random()
    if x < 0.2: return rng.choice(EMP)
    if x < 0.25 and moveonly: return "std::unique_ptr<int>"
    if x < 0.3: return "pigro::compressed_tuple<%s>" % ", ".join(rng.choice(gt.COMMON + EMP) for _ in range(rng.choice([0, 1, 2])))
    return rng.choice(gt.COMMON if x < 0.62 else gt.VALUES)


EMPTY_CLASSES = {e.replace(" ", "") for e in EMP} | {"bd::ToInt", "bd::FromInt", "bd::Base"}


def is_empty(t):
    return t.replace(" ", "") in EMPTY_CLASSES or (t.startswith("pigro::compressed_tuple<") and all(is_empty(a.strip()) for a in inner(t)))


def inner(t):
    s = t[len("pigro::compressed_tuple<"):-1]
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0: out.append(cur); cur = ""; continue
        depth += ch in "<("; depth -= ch in ">)"
        cur += ch
    return out + [cur] if cur.strip() else out


# ---- C13 ------------------------------------------------------------------
def bound_list(rng, n=None):
    kind = rng.choice(["tuple", "tuple", "ct", "ct", "pair", "array", "usr", "args", "args"])
    if n is None: n = {"pair": 2, "array": rng.choice([0, 1, 2, 3, 5])}.get(kind, gt.length(rng, 8))
    els = []
    at = rng.choice(["int", "std::string", "double", "val::Empty", "mx::Callable"])
    for _ in range(n):
        k = "v" if kind == "array" or rng.random() < 0.7 else rng.choice("rrc")
        els.append(dict(t=at if kind == "array" else vtype(rng), k=k))
    return dict(kind=kind, els=els, cat=rng.choice(["rv", "rv", "rv", "lv", "clv"]))


def gen_unit13(rng):
    d = dict(levels=[], further=[], fn=None)
    depth = rng.choice([1, 1, 1, 1, 1, 2, 2, 3])
    for _ in range(depth):
        b = bound_list(rng, n=rng.choice([0, 1, 2, 2, 3]) if depth > 1 else None)
        if depth > 1 and b["kind"] in ("pair", "array"): b["kind"] = "tuple"
        b["op"] = "bb" if b["kind"] == "args" else rng.choice([">>", "<<", "bft", "bbt"])
        b["fcat"] = rng.choice(["rv", "rv", "lv"])
        d["levels"].append(b)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3, 4, gt.length(rng, 9)])):
        t = vtype(rng)
        d["further"].append(dict(t=t, cat=rng.choice(["lv", "clv", "rv", "rv", "crv"])))
    d["fn"] = rng.choice(["gen", "gen", "lambda", "mut", "state", "final", "qual", "ptr", "ptr", "stdfn", "mfp", "mfp", "mdp", "ref"])
    d["ret"] = rng.choice(RETS)
    return fit(d, rng)


def order(d):
    """positions of all arguments: list of (level or -1, index)"""
    seq = [(-1, i) for i in range(len(d["further"]))]
    for l in reversed(range(len(d["levels"]))):
        b = d["levels"][l]
        own = [(l, i) for i in range(len(b["els"]))]
        seq = own + seq if b["op"] in (">>", "bft") else seq + own
    return seq


# levels[0] is the innermost: f is bound there first; the outermost is called
def fit(d, rng=None):
    """makes the argument list fit the kind of function"""
    seq = order(d)
    if d["fn"] == "mdp":
        # exactly one argument, an object
        keep = None
        for l, i in seq:
            keep = (l, i)
            break
        if keep is None: d["fn"] = "gen"
        else:
            l0, i0 = keep
            for l, b in enumerate(d["levels"]):
                if b["kind"] == "pair" and not (l == l0): b["kind"] = "tuple"
                if b["kind"] in ("pair", "array"): b["kind"] = "tuple"
                b["els"] = [b["els"][i0]] if l == l0 else []
            d["further"] = [d["further"][i0]] if l0 == -1 else []
            e = d["further"][0] if l0 == -1 else d["levels"][l0]["els"][0]
            e["t"] = rng.choice(OBJ) if rng else (e["t"] if e["t"] in OBJ else "bd::Obj")
            if "cat" in e: e["cat"] = "lv"
            elif d["levels"][l0]["cat"] == "clv": d["levels"][l0]["cat"] = "lv"
            if e.get("k") == "c": e["k"] = "r"
    if d["fn"] == "mfp":
        if not seq: d["fn"] = "gen"
        else:
            l0, i0 = seq[0]
            e = d["further"][i0] if l0 == -1 else d["levels"][l0]["els"][i0]
            if l0 >= 0 and d["levels"][l0]["kind"] in ("array",): d["levels"][l0]["kind"] = "tuple"
            if e["t"] not in OBJ: e["t"] = rng.choice(OBJ) if rng else "bd::Obj"
    return d


def const_el(b, e):
    """the element is const when passed on"""
    return e["k"] == "c" or (b["cat"] == "clv" and b["kind"] != "args" and (e["k"] == "v" or b["kind"] == "ct")) or (b["kind"] == "args" and e["k"] == "c")


def prvalue(b, e):
    return b["kind"] == "ct" and is_empty(e["t"])


def params(d):
    out = []
    for n, (l, i) in enumerate(order(d)):
        salt = (l * 7 + i * 3 + d["ret"]) % 3
        if l >= 0:
            b = d["levels"][l]
            e = b["els"][i]
            mo = e["t"] in gt.MOVEONLY
            if prvalue(b, e): p = [e["t"], "const %s &" % "T", e["t"] + " &&"][salt] if salt != 1 else e["t"] + " const &"
            elif const_el(b, e): p = e["t"] + " const &" if mo or salt else e["t"]
            else: p = e["t"] + " &" if mo else [e["t"], e["t"] + " &", e["t"] + " const &"][salt]
        else:
            e = d["further"][i]
            mo = e["t"] in gt.MOVEONLY
            p = {"lv": [e["t"] + " &", e["t"] + " const &", e["t"]], "clv": [e["t"] + " const &", e["t"], e["t"] + " const &"],
                 "rv": [e["t"], e["t"] + " &&", e["t"] + " const &"], "crv": [e["t"] + " const &&", e["t"] + " const &", e["t"] + " const &"]}[e["cat"]][salt]
            if mo and p == e["t"] and e["cat"] != "rv": p = e["t"] + " const &"
        out.append(p)
    return out


def fn13(d):
    R = d["ret"]
    f = d["fn"]
    if f in ("gen", "mut", "state", "final", "qual"): return "bd::%s<%d>{}" % ({"gen": "Gen", "mut": "GenMut", "state": "GenState", "final": "GenFinal", "qual": "GenQual"}[f], R)
    if f == "lambda": return "[salt = std::string(\"captured and too long for in place storage\")](auto &&...a) -> decltype(auto) { if (salt != \"captured and too long for in place storage\") std::abort(); return bd::ret<%d>(bd::record(std::forward<decltype(a)>(a)...)); }" % R
    if f == "ref": return "bd::Gen<%d>{}" % R
    ps = params(d)
    if f == "ptr": return "&bd::fn<%s>" % ", ".join([str(R)] + ps)
    if f == "stdfn": return "std::function<bd::ret_t<%d>(%s)>(&bd::fn<%s>)" % (R, ", ".join(ps), ", ".join([str(R)] + ps))
    if f == "mfp": return "&bd::Obj::mfc<%s>" % ", ".join([str(R)] + ps[1:])
    return "&bd::Obj::data"


def unit13(d):
    s = "static void run(pbt::Ctx &c) {\n  using namespace pigro;\n"
    lv = d["levels"]
    for l, b in enumerate(lv):
        for i, e in enumerate(b["els"]):
            s += "  const mx::u32 k%d_%d = (mx::u32)c.draw(mx::El<%s>::D()); %s v%d_%d = mx::El<%s>::make(k%d_%d);\n" % (l, i, e["t"], e["t"], l, i, e["t"], l, i)
        # elements that stay with the caller are read back at the end
        decls = [gt.decl(e) for e in b["els"]]
        init = ["std::move(v%d_%d)" % (l, i) if e["k"] == "v" else "v%d_%d" % (l, i) for i, e in enumerate(b["els"])]
        ty = {"tuple": "std::tuple<%s>" % ", ".join(decls), "usr": "usr::Tup<%s>" % ", ".join(decls), "ct": "pigro::compressed_tuple<%s>" % ", ".join(decls),
              "pair": "std::pair<%s>" % ", ".join(decls), "array": "std::array<%s, %d>" % (b["els"][0]["t"] if b["els"] else "int", len(b["els"]))}.get(b["kind"])
        if ty: s += "  %s t%d%s;\n" % (ty, l, ("{%s}" if b["kind"] != "array" else "{ {%s} }") % ", ".join(init) if init else "{}")
    s += "  auto f = %s;\n" % fn13(d)
    prev = "f"
    for l, b in enumerate(lv):
        fx = "std::move(%s)" % prev if b["fcat"] == "rv" else prev
        if b["kind"] == "args":
            ex = ["std::move(v%d_%d)" % (l, i) if e["k"] == "v" else "v%d_%d" % (l, i) if e["k"] == "r" else "std::as_const(v%d_%d)" % (l, i) for i, e in enumerate(b["els"])]
            s += "  auto b%d = pigro::bind_back(%s);\n" % (l, ", ".join([fx] + ex))
        else:
            t = {"rv": "std::move(t%d)", "lv": "t%d", "clv": "std::as_const(t%d)"}[b["cat"]] % l
            s += "  auto b%d = %s;\n" % (l, {">>": "%s >> %s" % (t, fx), "<<": "%s << %s" % (t, fx), "bft": "pigro::bind_front_tuple(%s, %s)" % (fx, t), "bbt": "pigro::bind_back_tuple(%s, %s)" % (fx, t)}[b["op"]])
        prev = "b%d" % l
    s += "  const mx::u32 n = (mx::u32)c.range(1, 4);\n  for (mx::u32 round = 0; round < n && !c.failed; ++round) {\n"
    fs = []
    for i, e in enumerate(d["further"]):
        s += "    const mx::u32 w%d = (mx::u32)c.draw(mx::El<%s>::D()); %s a%d = mx::El<%s>::make(w%d);\n" % (i, e["t"], e["t"], i, e["t"], i)
        fs.append({"lv": "a%d", "clv": "std::as_const(a%d)", "rv": "std::move(a%d)", "crv": "std::move(std::as_const(a%d))"}[e["cat"]] % i)
    fixed = d["fn"] in ("ptr", "stdfn", "mfp", "mdp")
    ex = []
    seq = order(d)
    for n, (l, i) in enumerate(seq):
        if n == 0 and d["fn"] in ("mfp", "mdp"):
            k = "k%d_%d" % (l, i) if l >= 0 else "w%d" % i
            ex.append("bd::want<bd::Obj>(%s)" % k)
        elif l >= 0:
            e = lv[l]["els"][i]
            adr = ", -1, std::addressof(v%d_%d)" % (l, i) if e["k"] != "v" and not fixed and not prvalue(lv[l], e) else ""
            ex.append("bd::want<%s>(k%d_%d%s)" % (e["t"], l, i, adr))
        else:
            e = d["further"][i]
            cat = "" if fixed else ", %d, std::addressof(a%d)" % ({"lv": 0, "clv": 1, "rv": 2, "crv": 3}[e["cat"]], i)
            ex.append("bd::want<%s>(w%d%s)" % (e["t"], i, cat))
    s += "    const std::vector<bd::Arg> exp{%s};\n" % ", ".join(ex)
    s += "    bd::calls.clear();\n"
    call = "%s(%s)" % (prev, ", ".join(fs))
    if d["fn"] == "mdp":
        s += "    CK(mx::same<decltype(%s), mx::u64 &> || mx::same<decltype(%s), const mx::u64 &>); CK(%s == 77);\n    c.nontrivial = true;\n" % (call, call, call)
    else:
        s += "    c.sayf([&] { std::string r = \"call: arguments\"; for (auto &a : exp) r += \" \" + mx::S(a.code); return r; });\n"
        s += "    CK(mx::same<decltype(%s), bd::ret_t<%d>>);\n" % (call, d["ret"])
        if d["ret"] == 1: s += "    %s;\n    if (bd::compare(c, exp)) CKM(\"result\", bd::global == bd::digest(exp));\n" % call
        else: s += "    decltype(auto) r = %s;\n    if (bd::compare(c, exp)) c.check(bd::right<%d>(r, bd::digest(exp)), \"the result differs from that of a direct call\");\n" % (call, d["ret"])
        s += "    if (round && exp.size() > 1) c.nontrivial = true;\n"
    s += "  }\n}\n"
    return Unit(d, s)


def gen13(rng, tier, n):
    out = []
    while len(out) < n:
        d = gen_unit13(rng)
        if ok13(d): out.append(unit13(d))
    return out


def ok13(d):
    # functions of which the argument is a plain object by value must not receive a const object
    for b in d["levels"]:
        if b["kind"] == "pair" and len(b["els"]) != 2: return False
        if b["kind"] == "array" and any(e["t"] != b["els"][0]["t"] or e["k"] != "v" for e in b["els"]): return False
    # const function objects only arise from const lvalues; nested mutable ones are passed as they are
    if d["fn"] == "stdfn" and d["ret"] == 3: return True
    return True


def shrink13(unit):
    d = unit.desc
    if "levels" not in d: return
    def ok(h):
        h = fit(h)
        return [unit13(h)] if h["levels"] and ok13(h) else []
    for l in range(len(d["levels"])):
        if len(d["levels"]) > 1:
            h = copy.deepcopy(d); del h["levels"][l]; yield from ok(h)
        for i in range(len(d["levels"][l]["els"])):
            h = copy.deepcopy(d); del h["levels"][l]["els"][i]
            if h["levels"][l]["kind"] == "pair": h["levels"][l]["kind"] = "tuple"
            yield from ok(h)
    for i in range(len(d["further"])):
        h = copy.deepcopy(d); del h["further"][i]; yield from ok(h)
    for l in range(len(d["levels"])):
        for i, e in enumerate(d["levels"][l]["els"]):
            if e["t"] != "int" and d["levels"][l]["kind"] != "array":
                h = copy.deepcopy(d); h["levels"][l]["els"][i]["t"] = "int"; yield from ok(h)
            if e["k"] != "v":
                h = copy.deepcopy(d); h["levels"][l]["els"][i]["k"] = "v"; yield from ok(h)
    for i, e in enumerate(d["further"]):
        if e["t"] != "int": h = copy.deepcopy(d); h["further"][i]["t"] = "int"; yield from ok(h)
    if d["fn"] != "gen": h = copy.deepcopy(d); h["fn"] = "gen"; yield from ok(h)
    if d["ret"]: h = copy.deepcopy(d); h["ret"] = 0; yield from ok(h)


# ---- C14 ------------------------------------------------------------------
def gen_unit14(rng):
    kind = rng.choice(["tuple", "tuple", "ct", "ct", "pair", "array", "usr", "args", "args"])
    n = {"pair": 2, "array": rng.choice([1, 2, 3])}.get(kind, rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))
    next_ = rng.choice([1, 2, 3])
    els = []
    for _ in range(n):
        x = rng.random()
        if kind == "array": e = dict(t="bd::Cell", k="v")
        elif x < 0.4: e = dict(t="bd::Cell", k="v")
        elif x < 0.6: e = dict(t="bd::Cell", k="r", x=rng.randrange(next_))
        elif x < 0.7: e = dict(t="bd::Cell", k="c", x=rng.randrange(next_))
        elif x < 0.78: e = dict(t="bd::Pin", k=rng.choice("rc"), x=0)
        elif x < 0.86: e = dict(t="std::reference_wrapper<bd::Cell>", k="v", x=rng.randrange(next_))
        elif x < 0.92: e = dict(t="bd::Cell*", k="v", x=rng.randrange(next_))
        else: e = dict(t=rng.choice(["int", "val::Empty"]), k="v")
        els.append(e)
    f = rng.choice(["FState", "FState", "FFinal", "FLambda", "FConst"])
    fcat = rng.choice(["rv", "rv", "lv"]) if f != "FConst" else rng.choice(["rv", "lv", "clv"])
    return dict(kind=kind, els=els, cat=rng.choice(["rv", "rv", "rv", "lv", "lv", "clv"]) if kind != "args" else "rv", f=f, fcat=fcat, nx=next_,
                op="bb" if kind == "args" else rng.choice([">>", "<<", "bft", "bbt"]))


def unit14(d):
    els, kind, cat = d["els"], d["kind"], d["cat"]
    s = "static void run(pbt::Ctx &c) {\n  using namespace pigro;\n  using bd::Ref; bd::Cell::external_copies = 0;\n"
    s += "  bd::Cell x[%d]; bd::Pin pin; for (auto &y : x) { y.set(c.draw(1000)); y.external = true; } pin.set(c.draw(1000)); pin.external = true;\n" % d["nx"]
    for i, e in enumerate(els):
        if e["t"] == "bd::Cell" and e["k"] == "v": s += "  const mx::u64 k%d = c.draw(1000); bd::Cell v%d(k%d);\n" % (i, i, i)
    init = []
    for i, e in enumerate(els):
        if e["k"] != "v": init.append("pin" if e["t"] == "bd::Pin" else "x[%d]" % e["x"])
        elif e["t"] == "bd::Cell": init.append("std::move(v%d)" % i)
        elif e["t"] == "int": init.append("21")
        elif e["t"] == "val::Empty": init.append("val::Empty{}")
        elif e["t"] == "bd::Cell*": init.append("&x[%d]" % e["x"])
        else: init.append("std::ref(x[%d])" % e["x"])
    decls = [gt.decl(e) for e in els]
    ty = {"tuple": "std::tuple<%s>" % ", ".join(decls), "usr": "usr::Tup<%s>" % ", ".join(decls), "ct": "pigro::compressed_tuple<%s>" % ", ".join(decls), "pair": "std::pair<%s>" % ", ".join(decls),
          "array": "std::array<bd::Cell, %d>" % len(els)}.get(kind)
    if ty:
        s += "  %s t%s;\n" % (ty, ("{ {%s} }" if kind == "array" else "{%s}") % ", ".join(init) if init else "")
        s += "  using std::get; using pigro::get;\n"
    s += "  const mx::u64 kf = c.draw(1000);\n"
    s += {"FState": "  bd::FState f{bd::Cell(kf)};\n", "FFinal": "  bd::FFinal f{bd::Cell(kf)};\n", "FLambda": "  auto f = bd::lambda_state(kf);\n", "FConst": "  bd::FConst f;\n"}[d["f"]]
    vis = d["f"] in ("FState", "FFinal") and d["fcat"] == "lv"
    if vis: s += "  f.s.external = true;\n"
    if cat != "rv":
        for i, e in enumerate(els):
            if e["t"] == "bd::Cell" and e["k"] == "v": s += "  get<%d>(t).external = true;\n" % i
    fx = {"rv": "std::move(f)", "lv": "f", "clv": "std::as_const(f)"}[d["fcat"]]
    if kind == "args":
        ax = ["std::as_const(%s)" % a if e["k"] == "c" else a for a, e in zip(init, els)]
        mk = "pigro::bind_back(%s)" % ", ".join([fx] + ax)
    else:
        t = {"rv": "std::move(t)", "lv": "t", "clv": "std::as_const(t)"}[cat]
        mk = {">>": "%s >> %s" % (t, fx), "<<": "%s << %s" % (t, fx), "bft": "pigro::bind_front_tuple(%s, %s)" % (fx, t), "bbt": "pigro::bind_back_tuple(%s, %s)" % (fx, t)}[d["op"]]
    front = d["op"] in (">>", "bft")
    s += "  auto *b = new auto(%s);\n  using B = std::remove_reference_t<decltype(*b)>;\n  bd::Histories<B, %s> h(c);\n" % (mk, "true" if front else "false")
    s += "  std::vector<int> xi; for (auto &y : x) xi.push_back(h.m.fresh(y.read())); const int pi = h.m.fresh(pin.read()); (void)pi;\n"
    s += "  bd::Bound m; m.f = %s; m.owned.push_back(%d);\n" % ("Ref{-1, false, 0}" if d["f"] == "FConst" else "Ref{h.m.fresh(kf), true}", d["fcat"] == "rv")
    for i, e in enumerate(els):
        const = e["k"] == "c" or (cat == "clv" and (e["k"] == "v" or kind == "ct"))
        if e["k"] != "v":
            s += "  m.els.push_back(Ref{%s, %s}); m.owned.push_back(0);\n" % ("pi" if e["t"] == "bd::Pin" else "xi[%d]" % e["x"], "false" if const else "true")
        elif e["t"] == "bd::Cell": s += "  m.els.push_back(Ref{h.m.fresh(k%d), %s}); m.owned.push_back(%d);\n" % (i, "false" if const else "true", cat == "rv")
        elif e["t"] == "int": s += "  m.els.push_back(Ref{-1, false, 21}); m.owned.push_back(0);\n"
        elif e["t"] == "val::Empty": s += "  m.els.push_back(Ref{-1, false, 5}); m.owned.push_back(0);\n"
        else: s += "  m.els.push_back(Ref{xi[%d], true}); m.owned.push_back(0);\n" % e["x"]
    s += "  h.check_ext = [&, m] {\n    for (size_t i = 0; i < %d; ++i) c.checkf(x[i].read() == h.m.cells[xi[i]], [&] { return \"variable x\" + mx::S(i) + \" of the caller is not what it should be\"; });\n" % d["nx"]
    s += "    c.check(pin.read() == h.m.cells[pi], \"a variable of the caller is not what it should be\");\n"
    if vis: s += "    c.check(f.s.read() == h.m.get(m.f), \"the function of the caller has another state than it should\");\n"
    if cat != "rv":
        for i, e in enumerate(els):
            if e["t"] == "bd::Cell" and e["k"] == "v": s += "    c.check(get<%d>(t).read() == h.m.get(m.els[%d]), \"element %d of the tuple of the caller is not what it should be\");\n" % (i, i, i)
    s += "  };\n  h.add(std::unique_ptr<B>(b), m);\n"
    chg = ["    case %d: { const auto j = c.draw(%d); const auto v = c.draw(1000); x[j].set(v); h.m.cells[xi[j]] = v; c.sayf([&] { return \"set x\" + mx::S(j); }); break; }" % (0, d["nx"]),
           "    case 1: { const auto v = c.draw(1000); pin.set(v); h.m.cells[pi] = v; break; }"]
    if vis: chg.append("    case %d: { const auto v = c.draw(1000); f.s.set(v); h.m.cells[m.f.id] = v; c.say(\"set the state of f\"); break; }" % len(chg))
    if cat != "rv":
        for i, e in enumerate(els):
            if e["t"] == "bd::Cell" and e["k"] == "v": chg.append("    case %d: { const auto v = c.draw(1000); get<%d>(t).set(v); h.m.cells[m.els[%d].id] = v; c.say(\"set element %d of the tuple\"); break; }" % (len(chg), i, i, i))
    s += "  h.run([&] { switch (c.draw(%d)) {\n%s\n  } });\n}\n" % (len(chg), "\n".join(chg))
    return Unit(d, s)


def gen14(rng, tier, n):
    return [unit14(gen_unit14(rng)) for _ in range(n)]


def shrink14(unit):
    d = unit.desc
    if "els" not in d: return
    for i in range(len(d["els"])):
        h = copy.deepcopy(d)
        del h["els"][i]
        if h["kind"] == "pair" or (h["kind"] == "array" and not h["els"]): h["kind"] = "tuple"
        yield unit14(h)
    for i, e in enumerate(d["els"]):
        if e["t"] != "bd::Cell" or e["k"] != "v":
            h = copy.deepcopy(d); h["els"][i] = dict(t="bd::Cell", k="v"); yield unit14(h)
    if d["f"] not in ("FState", "FConst"): h = copy.deepcopy(d); h["f"] = "FState"; yield unit14(h)


# ---- C15 ------------------------------------------------------------------
PARAMS = ["int", "int &", "const int &", "int &&", "long", "double", "std::string", "std::string &", "const std::string &", "std::string &&", "std::string_view", "std::unique_ptr<int>",
          "std::unique_ptr<int> &", "std::unique_ptr<int> &&", "val::Empty", "val::Empty &", "const val::Empty &", "val::Empty &&", "bd::FromInt", "bd::Base", "bd::Base &", "const bd::Base &", "bd::Derived *", "bd::Base *",
          "std::nullptr_t", "const void *", "bool", "std::function<int(int)>", "std::tuple<int>", "std::tuple<int> &", "pigro::compressed_tuple<int> &", "std::integral_constant<size_t, 0>", "bd::Explicit", "int &"]
ARGS = ["int", "int &", "const int &", "short", "double", "std::string", "std::string &", "const std::string &", "const char *", "std::unique_ptr<int>", "std::unique_ptr<int> &", "val::Empty", "val::Empty &",
        "bd::Derived", "bd::Derived &", "const bd::Derived &", "bd::Derived *", "std::nullptr_t", "bd::ToInt", "bd::FromInt", "std::tuple<int>", "std::tuple<int> &", "pigro::compressed_tuple<int>", "pigro::compressed_tuple<int> &",
        "std::integral_constant<size_t, 0>", "std::integral_constant<size_t, 1>", "std::integral_constant<int, 0>", "int (&)(int)", "bool"]
BOUND = ["int", "short", "std::string", "double", "std::unique_ptr<int>", "val::Empty", "bd::Derived", "bd::Derived *", "std::nullptr_t", "std::tuple<int>", "pigro::compressed_tuple<int>", "std::integral_constant<size_t, 0>",
         "bd::ToInt", "const char *"]
REQ = ["", "", "std::integral<A0>", "std::is_class_v<std::remove_cvref_t<A0>>", "sizeof...(A) >= 2", "sizeof...(A) == 1", "(std::copyable<std::remove_cvref_t<A>> && ...)", "!(std::is_rvalue_reference_v<A &&> || ...)", "std::is_lvalue_reference_v<A0>"]


def accepts(t, rng):
    """a parameter that takes an argument of this type, most of the time"""
    b = t.replace("const ", "").rstrip(" &")
    return rng.choice([p for p in PARAMS if p.replace("const ", "").rstrip(" &") == b] or PARAMS)


def gen_fun(rng, total_hint, tag, types=()):
    ops = []
    for k in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.3:
            ops.append(dict(tmpl=True, req=rng.choice(REQ), first=rng.random() < 0.6, q=rng.choice(["", "const", "&", "const &", "&&", ""])))
        else:
            n = max(0, total_hint + rng.choice([0, 0, 0, 0, -1, 1]))
            ps = [accepts(types[i], rng) if i < len(types) and rng.random() < 0.8 else rng.choice(PARAMS) for i in range(n)]
            ops.append(dict(p=ps, q=rng.choice(["", "const", "&", "const &", "", "const", "&&", "mutable"]), opt=rng.random() < 0.1, el=False))
    return dict(ops=ops, tag=tag, state=rng.random() < 0.4)


def gen_other(rng, total, tag, types):
    """a callable that is not a class with call operators"""
    kind = rng.choice(["mfp", "mfp", "mdp", "mdp", "ptr", "ref", "stdfn"])
    if kind == "mdp": total = 1
    skip = kind in ("mfp", "mdp")
    ps = [accepts(types[i], rng) if i < len(types) and rng.random() < 0.9 else rng.choice(PARAMS) for i in range(skip, max(skip, total))]
    return dict(other=kind, p=ps, q=rng.choice(["", "const", "&", "const &"]) if kind == "mfp" else "", cls=rng.choice(["bd::Base", "bd::Derived"]), tag=tag)


def fun_cpp(f, name):
    if f.get("other"):
        P, T = ", ".join(f["p"]), "bd::Tag<%d>" % (f["tag"] * 10)
        return "using %s = %s;\n" % (name, {"mfp": "%s (%s::*)(%s) %s" % (T, f["cls"], P, f["q"]), "mdp": "%s %s::*" % (T, f["cls"]), "ptr": "%s (*)(%s)" % (T, P), "ref": "std::reference_wrapper<%s(%s)>" % (T, P), "stdfn": "std::function<%s(%s)>" % (T, P)}[f["other"]])
    s = "struct %s {%s\n" % (name, " int state = 1;" if f["state"] else "")
    for k, o in enumerate(f["ops"]):
        q = o["q"].replace("mutable", "")
        r = "bd::Tag<%d>" % (f["tag"] * 10 + k)
        if o.get("tmpl"):
            if o["first"] or "A0" in o["req"]: s += "  template<class A0, class... A> %s %s operator()(A0 &&, A &&...) %s { return {}; }\n" % ("requires(%s)" % o["req"] if o["req"] else "", r, q)
            else: s += "  template<class... A> %s %s operator()(A &&...) %s { return {}; }\n" % ("requires(%s)" % o["req"] if o["req"] else "", r, q)
        else:
            s += "  %s operator()(%s%s) %s { return {}; }\n" % (r, ", ".join(o["p"]) + (", int = 3" if o["opt"] and o["p"] else ""), ("..." if not o["p"] else ", ...") if o["el"] else "", q)
    return s + "};\n"


def dedupe(f):
    """two operators of one class must differ; the qualifiers must go together"""
    seen, out = set(), []
    refq = any("&" in o["q"] for o in f["ops"])
    for o in f["ops"]:
        if refq and "&" not in o["q"]: o["q"] = (o["q"].replace("mutable", "") + " &").strip()
        key = ("t", o["first"] or "A0" in o["req"], o["req"], o["q"]) if o.get("tmpl") else ("p", tuple(o["p"] + (["int"] if o["opt"] and o["p"] else [])), o["q"].replace("mutable", ""))
        if key in seen: continue
        seen.add(key)
        out.append(o)
    f["ops"] = out
    return f


def gen_unit15(rng):
    kind = rng.choice(["tuple", "tuple", "ct", "ct", "pair", "array", "usr", "args", "args"])
    n = {"pair": 2, "array": rng.choice([0, 1, 2])}.get(kind, rng.choice([0, 1, 1, 2, 2, 3]))
    t0 = rng.choice([b for b in BOUND if b != "std::unique_ptr<int>"])
    els = [dict(t=t0 if kind == "array" else rng.choice(BOUND), k="v" if kind == "array" or rng.random() < 0.65 else rng.choice("rrc")) for _ in range(n)]
    d = dict(kind=kind, els=els, cat=rng.choice(["rv", "rv", "lv", "clv"]) if kind != "args" else "rv", op="bb" if kind == "args" else rng.choice([">>", "<<", "bft", "bbt"]), funs=[], args=[])
    na = rng.choice([0, 1, 1, 2, 2, 3])
    base = [rng.choice(ARGS) for _ in range(na)]
    front = d["op"] in (">>", "bft")
    bts = [e["t"] for e in els]
    types = bts + base if front else base + bts
    other = rng.random() < 0.35
    if other and types and kind != "array": # an object to point to a member of
        if front and els: els[0]["t"] = types[0] = rng.choice(["bd::Derived", "bd::Derived *"])
        else: base[0:1] = types[0:1] = [rng.choice(["bd::Derived", "bd::Derived &", "const bd::Derived &", "bd::Derived *", "const bd::Derived *", "std::reference_wrapper<bd::Derived>"])]
    for k in range(rng.choice([1, 2, 2])):
        if other and rng.random() < 0.7: d["funs"].append(gen_other(rng, len(types), k + 1, types))
        else: d["funs"].append(dedupe(gen_fun(rng, n + na, k + 1, types)))
    d["fcat"] = [rng.choice(["rv", "rv", "lv", "clv"]) for _ in d["funs"]]
    seen = set()
    for _ in range(14):
        a = list(base)
        for i in range(len(a)):
            if rng.random() < 0.35: a[i] = rng.choice(ARGS)
        x = rng.random()
        if x < 0.2: a.append(rng.choice(ARGS))
        elif x < 0.35 and a: a.pop()
        elif x < 0.42: a = [rng.choice(ARGS) for _ in range(rng.randint(0, 5))]
        if tuple(a) not in seen:
            seen.add(tuple(a))
            d["args"].append(a)
    return d


def unit15(d):
    els, kind, cat = d["els"], d["kind"], d["cat"]
    s = ""
    for k, f in enumerate(d["funs"]): s += fun_cpp(f, "F%d" % k)
    decls = [gt.decl(e) for e in els]
    ty = {"tuple": "std::tuple<%s>" % ", ".join(decls), "usr": "usr::Tup<%s>" % ", ".join(decls), "ct": "pigro::compressed_tuple<%s>" % ", ".join(decls), "pair": "std::pair<%s>" % ", ".join(decls),
          "array": "std::array<%s, %d>" % (els[0]["t"] if els else "int", len(els)), "args": "int"}[kind]
    s += "using T = %s;\n" % ty
    # how the bound values are passed on
    bs = []
    for e in els:
        const = e["k"] == "c" or (cat == "clv" and (e["k"] == "v" or kind == "ct"))
        if kind == "ct" and is_empty(e["t"]): bs.append(e["t"])
        else: bs.append(("%s const &" if const else "%s &") % e["t"])
    front = d["op"] in (">>", "bft")
    q = {"rv": "", "lv": " &", "clv": " const &"}
    for k in range(len(d["funs"])):
        fx = "std::declval<F%d%s>()" % (k, q[d["fcat"][k]])
        t = "std::declval<T%s>()" % q[cat]
        if kind == "args":
            mk = "pigro::bind_back(%s)" % ", ".join([fx] + ["std::declval<%s>()" % (e["t"] + {"v": "", "r": " &", "c": " const &"}[e["k"]]) for e in els])
        else:
            mk = {">>": "%s >> %s" % (t, fx), "<<": "%s << %s" % (t, fx), "bft": "pigro::bind_front_tuple(%s, %s)" % (fx, t), "bbt": "pigro::bind_back_tuple(%s, %s)" % (fx, t)}[d["op"]]
        s += "using namespace pigro;\nusing B%d = decltype(%s);\nusing G%d = %s;\n" % (k, mk, k, "const F%d &" % k if d["fcat"][k] == "clv" else "F%d &" % k)
    two = len(d["funs"]) == 2 and d["fcat"][0] != "x"
    b = ""
    for j, a in enumerate(d["args"]):
        al = bs + a if front else a + bs
        txt = "(%s)" % ", ".join(a)
        lists = "bd::L<%s>{}, bd::L<%s>{}" % (", ".join(a), ", ".join(al))
        for k in range(len(d["funs"])): b += '  bd::accept<B%d, G%d>(c, "%s", %s);\n' % (k, k, txt, lists)
        if two: b += '  bd::choose<pigro::overload<B0, B1>, G0, G1>(c, "%s", %s);\n' % (txt, lists)
    return Unit(d, s + "static void run(pbt::Ctx &c) {\n" + b + "}\n")


def gen15(rng, tier, n):
    return [unit15(gen_unit15(rng)) for _ in range(n)]


def shrink15(unit):
    d = unit.desc
    if "funs" not in d: return
    if len(d["args"]) > 1:
        for a in d["args"]:
            h = copy.deepcopy(d); h["args"] = [a]; yield unit15(h)
        return
    if len(d["funs"]) > 1:
        for k in range(len(d["funs"])):
            h = copy.deepcopy(d); h["funs"] = [d["funs"][k]]; h["fcat"] = [d["fcat"][k]]; yield unit15(h)
    for k, f in enumerate(d["funs"]):
        if len(f.get("ops", ())) > 1:
            for j in range(len(f["ops"])):
                h = copy.deepcopy(d); del h["funs"][k]["ops"][j]; yield unit15(h)
    for i in range(len(d["els"])):
        if d["kind"] in ("tuple", "ct", "args"):
            h = copy.deepcopy(d); del h["els"][i]; yield unit15(h)
