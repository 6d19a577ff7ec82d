from .core import Check
from . import gen_lazy, gen_tuple, gen_bind, gen_misc, gen_more, gen_life, gen_conc, gen_const

LAZY_RULE = ("Cases are histories (source changes, calls, copies, moves, bursts of calls) drawn at random over randomly generated graphs of lazy functions, each compiled "
             "from the current tree and run next to a model; ")
RULES = {
    "C01": "non-trivial: a source changed between calls and something was evaluated",
    "C02": "non-trivial: a source changed between calls and at least one evaluation had to be skipped",
    "C03": "non-trivial: a source changed between calls and at least one evaluation had to be skipped",
    "C04": "non-trivial: a source changed between calls and at least one evaluation had to be skipped",
    "C05": "non-trivial: an injected exception was thrown inside a call and a later call completed",
    "C06": "non-trivial: a copied or moved object was called and a source changed between calls",
    "C07": "non-trivial: a source changed between calls and at least one evaluation had to be skipped",
    "C09": "non-trivial: a source changed between calls and a function with constants was evaluated",
}


def lazy_check(pid, **kw):
    return Check(pid, '#include "lazyh.h"', gen_lazy.generator(pid), gen_lazy.shrinker(pid), technique="model-based stateful property testing over generated dependency graphs and call histories", rule=LAZY_RULE + RULES[pid] + "; distinct by unit and choice sequence", **kw)


def table():
    t = {}
    for pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09"):
        t[pid] = lambda pid=pid: lazy_check(pid, units=(48, 600), per_program=2, cases=(400, 2500))
    t["C08"] = lambda: Check("C08", '#include "vals.h"\n#include <pigro/lazy.h>', gen_lazy.gen8, gen_lazy.shrink8, support=SUP, units=(160, 1600), per_program=4, cases=(1, 1),
                             technique="property testing over generated lazy functions: the size against the sum of the parts that have to be stored",
                             rule="One case per lazy function of a generated graph; non-trivial: it has dependencies")
    t["C10"] = lambda: Check("C10", '#include "tupleh.h"', gen_tuple.gen10, gen_tuple.shrink10, support=SUP, units=(160, 1600), per_program=2, cases=(300, 2000),
                             technique="model-based stateful property testing over generated element lists and histories of writes, copies, moves and assignments",
                             rule="Cases are random histories over randomly generated element lists (values, references, nested tuples, empty and awkward classes) next to a model of cells; non-trivial: at least one element, one write and one copy, move or assignment; distinct by unit and choice sequence")
    t["C11"] = lambda: Check("C11", '#include "tupleh.h"\n#include <pigro/bind_tuple.h>\nusing namespace pigro;', gen_tuple.gen11, gen_tuple.shrink11, support=SUP, units=(144, 1600), per_program=2, cases=(1, 1),
                             technique="property testing over generated element lists against a plain struct of the non-empty members (differential)",
                             rule="One case per generated element list or bound function, compared with a generated plain struct; non-trivial: a bound function, or at least two elements of which one is empty")
    t["C12"] = lambda: Check("C12", '#include "tupleh.h"', gen_tuple.gen12, gen_tuple.shrink12, support=SUP, units=(160, 1600), per_program=2, cases=(1, 1),
                             technique="property testing over generated element lists: types and categories against the declared types and std::tuple (differential)",
                             rule="One case per element of a generated element list plus one for the indices past the end; all are non-trivial")
    t["C13"] = lambda: Check("C13", '#include "bindh.h"', gen_bind.gen13, gen_bind.shrink13, support=SUP, units=(160, 1600), per_program=2, cases=(120, 1000),
                             technique="property testing over generated tuples, functions and argument lists against a direct call (differential)",
                             rule="Cases are sequences of calls with random values of a randomly generated composition of bound functions; non-trivial: at least two calls with at least two arguments in total; distinct by unit and choice sequence")
    t["C14"] = lambda: Check("C14", '#include "bindh.h"', gen_bind.gen14, gen_bind.shrink14, support=SUP, units=(112, 1200), per_program=2, cases=(300, 2000),
                             technique="model-based stateful property testing: histories of calls, external changes, copies, moves and destruction against a model of owned and shared cells",
                             rule="Cases are random histories over randomly generated bound functions; non-trivial: at least two calls and one copy, move, destruction or external change; distinct by unit and choice sequence")
    t["C15"] = lambda: Check("C15", '#include "bindh.h"\n#include <pigro/overload.h>', gen_bind.gen15, gen_bind.shrink15, support=SUP, units=(176, 1600), per_program=2, cases=(1, 1),
                             technique="property testing over generated call signatures, bound values and argument lists against std::is_invocable of the direct call (differential)",
                             rule="One case per generated function and argument list (rejected and accepted); non-trivial: the direct call is accepted")
    t["C16"] = lambda: Check("C16", '#include "misch.h"', gen_misc.gen16, gen_misc.shrink16, support=SUP, units=(120, 1200), per_program=2, cases=(40, 300),
                             technique="property testing over generated tuples and functions against the direct call, std::get and std::is_invocable (differential)",
                             rule="Cases are random values of randomly generated tuples in all four value categories, and generated functions that accept them or not; non-trivial: at least two elements (calls), accepted (well-formedness); distinct by unit and choice sequence")
    t["C17"] = lambda: Check("C17", '#include "misch.h"', gen_misc.gen17, gen_misc.shrink17, support=SUP, units=(80, 1000), per_program=2, cases=(1, 1),
                             technique="property testing over generated overload sets and argument lists against one class with all call operators (differential)",
                             rule="One case per argument list, order of the functions and value category of the overload set, plus calls of the selected function; non-trivial: the call is accepted")
    t["C18"] = lambda: Check("C18", '#include "misch.h"', gen_misc.gen18, gen_misc.shrink18, support=SUP, units=(120, 1200), per_program=2, cases=(60, 400),
                             technique="property testing: generated recursions against ordinarily written recursive functions, recorded calls, and generated signatures against std::is_invocable (differential)",
                             rule="Cases are random arguments of generated recursions and recorded calls, and argument lists of generated functions; non-trivial: the recursion is deeper than two levels, or a recorded or accepted call; distinct by unit and choice sequence")
    t["C19"] = lambda: Check("C19", '#include "misch.h"', gen_misc.gen19, gen_misc.shrink19, support=SUP, units=(120, 1200), per_program=2, cases=(40, 300),
                             technique="property testing over generated argument packs with identity and index invariants",
                             rule="Cases are random values of randomly generated packs, and numbers n; non-trivial: at least two arguments; distinct by unit and choice sequence")
    t["C20"] = lambda: Check("C20", '#include "misch.h"', gen_misc.gen20, gen_misc.shrink20, support=SUP, units=(96, 1200), per_program=2, cases=(1, 1),
                             technique="property testing over generated type lists and predicates against lists computed by the generator (reference model)",
                             rule="One case per generated list operation; non-trivial: more than two types of which some satisfy the predicate and some do not, or at least two lists")
    t["C21"] = lambda: Check("C21", '#include "misch.h"', gen_misc.gen21, gen_misc.shrink21, support=SUP, units=(120, 1200), per_program=2, cases=(60, 400),
                             technique="property testing over generated tuples and projections or predicates against element-wise application (reference model)",
                             rule="Cases are random values of randomly generated tuples; non-trivial: at least two elements, or one that is itself a tuple; distinct by unit and choice sequence")
    t["C22"] = lambda: Check("C22", '#include "misch.h"', gen_more.gen22, gen_more.shrink22, support=SUP, units=(112, 1200), per_program=2, cases=(60, 400),
                             technique="model-based stateful property testing over generated functions, wrappings and histories, and of std::optional<regular_void> next to an optional of an ordinary type",
                             rule="Cases are random arguments of, or histories of calls, copies and moves over, generated functions wrapped once or several times, and histories of optionals; non-trivial: an argument or a second call, at least two calls and another operation, or both empty and engaged optionals; distinct by unit and choice sequence")
    t["C23"] = lambda: Check("C23", '#include "misch.h"', gen_more.gen23, gen_more.shrink23, support=SUP, units=(120, 1200), per_program=2, cases=(60, 400),
                             technique="property testing over generated values, arguments and functions against the direct call, std::is_invocable and a plain struct (differential)",
                             rule="Cases are random values and arguments of generated functions with uncaptured values, argument lists that are accepted or not, and sizes; non-trivial: at least two arguments in a repeated call, accepted, or at least two values; distinct by unit and choice sequence")
    t["C24"] = lambda: Check("C24", '#include "misch.h"', gen_more.gen24, gen_more.shrink24, support=SUP, units=(96, 1200), per_program=2, cases=(4, 20),
                             technique="property testing over generated types, qualifiers and value categories with identity and exact-type invariants",
                             rule="One case per generated combination of type, qualifiers and value categories; non-trivial: something is qualified or captured")
    t["C25"] = lambda: Check("C25", '#include "misch.h"\n#include <pigro/lazy.h>\n#include <bitset>\n#include <ranges>', gen_more.gen25, gen_more.shrink25, support=SUP, units=(112, 1200), per_program=2, cases=(1, 1),
                             technique="property testing over generated types with complete, incomplete and unusual protocols against what the generator knows about them",
                             rule="One case per generated type and qualification; non-trivial: the concept holds for it")
    t["C26"] = lambda: Check("C26", '#include "lifeh.h"', gen_life.gen26, gen_life.shrink26, support=SUP + ["lazyh.cpp", "leak.cpp"], sanitize=True, units=(85, 1000), per_program=1, cases=(60, 500),
                             technique="model-based stateful property testing with AddressSanitizer and UndefinedBehaviorSanitizer, self-checking values, injected exceptions and a count of live values and heap blocks",
                             rule="Cases are histories of the generators of the other properties over types that own something, results that outlive their origin, and creations, copies, moves, assignments and calls that are interrupted by exceptions; non-trivial: as for the original property, at least one value (results), or both interrupted and completed operations; distinct by unit and choice sequence")
    t["C27"] = lambda: Check("C27", '#include "consth.h"', gen_const.gen27, gen_const.shrink27, support=SUP, units=(144, 1600), per_program=6, cases=(1, 1),
                             technique="property testing over generated constant expressions against the same expressions at run time and a reference model (differential)",
                             rule="One case per generated constant expression; non-trivial: at least two elements or types, a recursion deeper than two levels, or a call of an overload set")
    t["C28"] = lambda: Check("C28", '#include "conch.h"', gen_conc.gen28, gen_conc.shrink28, support=["pbt.cpp"], sanitize="thread", units=(96, 1200), per_program=2, cases=(60, 500),
                             technique="property testing over generated actors and generated schedules (nested calls, alternating and free threads with ThreadSanitizer) against their traces in isolation (metamorphic relation)",
                             rule="Cases are random programs of two to four actors over generated types, under a random schedule; non-trivial: an actor was interrupted by others at least twice, or they ran in free threads; distinct by unit and choice sequence")
    return t


SUP = ["pbt.cpp", "vals.cpp"]


def get(pid):
    return table()[pid]()
