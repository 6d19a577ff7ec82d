"""Generator for lifetimes (C26): histories of the other properties with types that own something, under
sanitizers and with a count of everything that is alive, and cases made for this property."""
import contextlib
from .core import Unit
from . import gen_lazy, gen_tuple as gt, gen_bind as gb, gen_misc as gm, gen_more as go

HEAVY = ["val::Trk"] * 10 + ["std::string"] * 4 + ["std::vector<std::string>", "std::map<int,std::string>", "std::shared_ptr<int>", "std::optional<std::string>", "std::variant<int,std::string>",
         "std::pair<int,std::string>", "std::tuple<std::string>", "val::Big", "val::Wide", "int", "double", "bool"]
EMPTY = ["val::Empty", "val::Empty2", "mx::Em<0>", "mx::EmDerived<0>", "val::FinalEmpty", "std::monostate", "mx::EmAmp"]


@contextlib.contextmanager
def owning():
    """The generators of the other properties choose types that own something more often."""
    common, values = list(gt.COMMON), list(gt.VALUES)
    gt.COMMON[:] = HEAVY
    gt.VALUES[:] = values + [h for h in HEAVY if h in values]
    try:
        yield
    finally:
        gt.COMMON[:], gt.VALUES[:] = common, values


def guard(unit):
    if "lf::guarded" in unit.code: return unit
    code = unit.code.replace("static void run(pbt::Ctx &c) {", "static void body26(pbt::Ctx &c) {")
    return Unit(dict(unit.desc, life=unit.name) if unit.name else unit.desc, code + "static void run(pbt::Ctx &c) { lf::guarded(c, body26); }\n", unit.name)


def types(rng, lo, hi):
    return [rng.choice(EMPTY) if rng.random() < 0.2 else rng.choice(HEAVY) for _ in range(rng.randint(lo, hi))]


def special(d):
    return Unit(d, "static void run(pbt::Ctx &c) { lf::guarded(c, [](pbt::Ctx &c) { lf::%s<%s> x(c); }); }\n" % (d["what"], ", ".join(d["types"])), d["what"])


KINDS = ["lazy", "lazy", "lazy", "throw", "throw", "c10", "c14", "c22", "c23", "c13", "c16", "c21", "Temps", "Temps", "Faults", "Faults", "Faults"]


def one(rng, kind):
    if kind in ("lazy", "throw"):
        P = gen_lazy.profile("C26" if kind == "lazy" else "C05")
        if kind == "throw": P = dict(P, mask=["FAULTS", "VALUE", "LIFE"])
        while True:
            g = gen_lazy.graph(rng, P, rng.choice(["random"] * 6 + ["chain", "wide", "diamond"]))
            if gen_lazy.valid(g, P): break
        u = gen_lazy.make_unit(g, P)
    elif kind in ("Temps", "Faults"):
        u = special(dict(what=kind, types=types(rng, 0, 4) if kind == "Temps" else types(rng, 1, 4) + ["val::Trk"]))
        if kind == "Faults": rng.shuffle(u.desc["types"]); u = special(u.desc)
    else:
        gen = {"c10": gt.gen10, "c13": gb.gen13, "c14": gb.gen14, "c22": go.gen22, "c23": go.gen23, "c16": gm.gen16, "c21": gm.gen21}[kind]
        while True:
            with owning(): u = gen(rng, "quick", 1)[0]
            if u.desc.get("mode") not in ("accepts", "size"): break
    u.name = kind
    return guard(u)


def gen26(rng, tier, n):
    return [one(rng, KINDS[i % len(KINDS)]) for i in range(n)]


def shrink26(unit):
    kind = unit.desc.get("what") or unit.desc.get("life")
    if kind in ("Temps", "Faults"):
        t = unit.desc["types"]
        for i in range(len(t)): yield special(dict(what=kind, types=t[:i] + t[i + 1:]))
        for i in range(len(t)):
            if t[i] not in ("int", "val::Trk"): yield special(dict(what=kind, types=t[:i] + ["val::Trk"] + t[i + 1:]))
        return
    sh = {"lazy": gen_lazy.shrinker("C26"), "throw": gen_lazy.shrinker("C05"), "c10": gt.shrink10, "c13": gb.shrink13, "c14": gb.shrink14, "c22": go.shrink22, "c23": go.shrink23,
          "c16": gm.shrink16, "c21": gm.shrink21}.get(kind)
    if not sh: return
    for u in sh(unit):
        u.desc.pop("life", None)
        u.name = kind
        yield guard(u)
