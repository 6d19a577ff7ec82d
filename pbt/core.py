"""Driver: compiles generated programs against the current tree, runs them, shrinks
failures at both levels (program, choice sequence), writes evidence and replays."""
import concurrent.futures as cf
import hashlib, json, os, random, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PIGRO_REPO", "/repo")
JOBS = min(8, os.cpu_count() or 1)
STD_PRELUDE = ["concepts", "cstddef", "functional", "memory", "type_traits", "utility"]
MEM_LIMIT = 6 << 30
BASE = ["-std=gnu++20", "-w", "-fmax-errors=3", "-fno-diagnostics-show-caret", "-pipe", "-Wno-psabi"]
TSAN = ["-fsanitize=thread"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class Unit:
    """One generated program part: a C++ function body plus what it was made from."""
    def __init__(self, desc, code, name=""):
        self.desc, self.code, self.name = desc, code, name


class Inconclusive(Exception):
    pass


class CompileError(Exception):
    def __init__(self, log, resource_problem):
        self.log, self.resource = log, resource_problem


def _limits(mem=None, cpu=None):
    def f():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, mem=None, cpu=None, timeout=300, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_limits(mem, cpu), env=env, cwd=cwd)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), True


def dictionary():
    """Integer literals of the sources under test: values a change may single out."""
    out = set()
    d = os.path.join(REPO, "src", "pigro")
    for f in sorted(os.listdir(d)):
        try:
            text = open(os.path.join(d, f), errors="replace").read()
        except OSError:
            continue
        text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)(?![\w.])", text):
            try:
                v = int(m.group(1), 0)
            except ValueError:
                continue
            if v < (1 << 62):
                out.update((v, v + 1, v - 1, -v))
    return sorted(out, key=lambda v: (abs(v), v))[:40]


def numbers_up_to(limit):
    """Small literals of the sources under test, as hints for sizes and lengths."""
    return [v for v in dictionary() if 0 <= v <= limit]


class Build:
    support = ["pbt.cpp", "vals.cpp", "lazyh.cpp"]

    def __init__(self, work, header, sanitize=False, extra=(), support=None, opt="-O0"):
        self.opt = opt
        self.work, self.header, self.sanitize, self.extra = work, header, sanitize, list(extra)
        self.support = support or self.support
        self.n = 0
        self.deadline = None
        self.pch = None

    def flags(self):
        d = dictionary()
        f = BASE + [self.opt] + (TSAN if self.sanitize == "thread" else SAN if self.sanitize else []) + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "cpp")]
        f += ["-DPBT_DICT=" + ",".join("%dll" % v for v in d)] if d else []
        return f + self.extra

    def prepare(self):
        """Precompiles the harness together with the library headers of the current tree."""
        h = os.path.join(self.work, "pre.h")
        with open(h, "w") as f:
            for s in STD_PRELUDE:
                f.write("#include <%s>\n" % s)
            f.write(self.header + "\n")
        cmds = [["g++"] + self.flags() + ["-x", "c++-header", h, "-o", h + ".gch"]]
        self.objs = []
        for c in self.support:  # does not depend on the library
            self.objs.append(os.path.join(self.work, c + ".o"))
            cmds.append(["g++"] + self.flags() + ["-c", os.path.join(HERE, "cpp", c), "-o", self.objs[-1]])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda c: run(c, mem=MEM_LIMIT, timeout=240), cmds))
        for n, (rc, o, e, to) in reversed(list(enumerate(res))):
            if rc and n:
                print(e[:2000], file=sys.stderr)
                raise CompileError(e, True)
            if rc:
                raise CompileError(e, to or self._resource(rc, e))

    def threads_work(self):
        """Whether programs with ThreadSanitizer run here at all."""
        src, exe = os.path.join(self.work, "tsan.cpp"), os.path.join(self.work, "tsan")
        with open(src, "w") as f:
            f.write("#include <thread>\nint main() { int n = 0; std::thread t([&] { n = 1; }); t.join(); return n - 1; }\n")
        return not run(["g++", "-std=gnu++20", "-O0"] + TSAN + [src, "-o", exe], timeout=120)[0] and all(not run([exe], timeout=60)[0] for _ in range(3))

    @staticmethod
    def _resource(rc, e):
        return rc < 0 or "memory exhausted" in e or "out of memory" in e or "cannot allocate" in e.lower() or "Killed" in e \
            or "internal compiler error" in e or "No space left" in e

    def source(self, units):
        s = "".join("namespace u%d {\n%s\n}\n" % (i, u.code.replace("@NS", "u%d" % i).replace("@T", "u%d::T" % i)) for i, u in enumerate(units))
        s += "int main(int argc, char **argv) { return pbt::engine(argc, argv, {%s}); }\n" % \
            ", ".join('{"u%d", &u%d::run}' % (i, i) for i in range(len(units)))
        return s

    def compile(self, units, name):
        src = os.path.join(self.work, name + ".cpp")
        with open(src, "w") as f:
            f.write('#include "pre.h"\n' + self.source(units))
        exe = os.path.join(self.work, name)
        cmd = ["g++"] + self.flags() + ["-include", os.path.join(self.work, "pre.h"), src] + self.objs + ["-o", exe]
        rc, o, e, to = run(cmd, mem=MEM_LIMIT, timeout=240)
        if rc or to:
            raise CompileError(e, to or self._resource(rc, e))
        return exe

    ENV = dict(os.environ, ASAN_OPTIONS="detect_stack_use_after_return=1:detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=1",
               TSAN_OPTIONS="halt_on_error=1:exitcode=97:report_signal_unsafe=0", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98", LC_ALL="C")

    def execute(self, exe, args, cpu=150, timeout=400):
        st = exe + ".%d.state" % (hash(tuple(args)) & 0xffffff)
        st = tempfile.mktemp(dir=self.work, prefix=os.path.basename(exe) + ".st")
        cmd = [exe, args[0], st] + [str(a) for a in args[1:]]
        rc, o, e, to = run(cmd, mem=None if self.sanitize else 4 << 30, cpu=cpu, timeout=timeout, env=self.ENV)
        state = None
        try:
            raw = open(st, "rb").read()
            _, u, idx, n = struct.unpack_from("<4Q", raw, 0)
            state = (u, idx, list(struct.unpack_from("<%dQ" % n, raw, 32)))
        except Exception:
            pass
        try:
            os.unlink(st)
        except OSError:
            pass
        return Outcome(rc, o, e, to, state)


class Outcome:
    """What one execution of a generated program showed."""
    def __init__(self, rc, out, err, timed_out, state):
        self.rc, self.out, self.err, self.state = rc, out, err, state
        self.data = None
        for line in reversed(out.strip().splitlines()):
            if line.startswith("{"):
                try:
                    self.data = json.loads(line)
                except ValueError:
                    pass
                break
        self.hang = timed_out or rc in (-signal.SIGXCPU, -signal.SIGKILL)
        self.harness_error = rc in (2, 77) or (rc == 0 and not self.data) or (rc == 3 and not self.data)
        if self.hang and rc == -signal.SIGKILL and not timed_out:
            pass
        self.failed = rc != 0 and not self.harness_error
        self.kind = "hang" if self.hang else "check" if rc == 3 else "crash" if self.failed else "ok"

    def message(self):
        if self.kind == "check":
            return self.data.get("msg", "check failed")
        if self.kind == "hang":
            return "a call does not terminate"
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n(]*|runtime error: [^\n]*|terminate called[^\n]*)", self.err)
        return "crash: " + (re.sub(r"0x[0-9a-f]+", "0x..", m.group(1))[:300] if m else "exit status %s" % self.rc)


class Case:
    """A failing unit with its choices."""
    def __init__(self, unit, choices, message, trace="", kind="check"):
        self.opt = "-O0"
        self.unit, self.choices, self.message, self.trace, self.kind = unit, choices, message, trace, kind


class Check:
    """One property. Subclasses / instances provide generate(rng, tier, n) -> units."""
    def __init__(self, pid, header, generate, shrink=None, sanitize=False, extra=(), rule="", units=(40, 400), per_program=3,
                 cases=(400, 2000), technique="", assumptions=(), support=None):
        self.support = support
        self.pid, self.header, self.generate, self.shrink_unit = pid, header, generate, shrink
        self.sanitize, self.extra, self.rule = sanitize, extra, rule
        self.units, self.per_program, self.cases = units, per_program, cases
        self.assumptions = list(assumptions)
        self.technique = technique

    # -- running -----------------------------------------------------------
    def main(self, tier, seed, replay=None):
        t0 = time.time()
        work = tempfile.mkdtemp(prefix="pigro-%s-" % self.pid)
        try:
            b = Build(work, self.header, self.sanitize, self.extra, self.support)
            if self.sanitize == "thread" and not b.threads_work():
                print("note: ThreadSanitizer does not run here; data races are judged by their effects only", file=sys.stderr)
                b.sanitize = False
            if replay:
                return self.replay(b, replay)
            return self.search(b, tier, seed, t0)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def search(self, b, tier, seed, t0):
        k = 0 if tier == "quick" else 1
        soft = t0 + (420 if tier == "quick" else 5400)
        try:
            b.prepare()
        except CompileError as e:
            if e.resource:
                print("error: the compiler ran out of resources", file=sys.stderr)
                return 2
            return self.report(tier, seed, t0, Case(Unit({"headers": self.header}, "static void run(pbt::Ctx &) {}"), [],
                               "the headers of the library do not compile", e.log[-4000:], "compile"), None)
        bo = self.optimised(b)
        share = int(os.environ.get("PBT_OPT_SHARE", 0)) or (9, 3)[k]
        rng = random.Random("%s/%d" % (self.pid, seed))
        units = self.generate(rng, tier, self.units[k])
        progs = [units[i:i + self.per_program] for i in range(0, len(units), self.per_program)]
        stats = dict(evals=0, nontrivial=0, distinct=0, checks=0, draws=0, labels={}, samples=[], units=0, programs=0, skipped=0, shapes=set())
        failures, errors = [], []
        stop = [False]

        def build_of(i):
            return bo if bo and i % share == share - 1 else b

        def job(i):
            b = build_of(i)
            if stop[0] or time.time() > soft:
                return i, "skipped", None, None
            try:
                exe = b.compile(progs[i], "p%d" % i)
            except CompileError as e:
                return i, "compile", e, None
            o = b.execute(exe, ["run", seed * 1000003 + i, self.cases[k], k])
            try:
                if not o.failed:
                    os.unlink(exe)
                    os.unlink(exe + ".cpp")
            except OSError:
                pass
            if o.failed:
                stop[0] = True
            return i, "ran", o, exe

        with cf.ThreadPoolExecutor(JOBS) as ex:
            for i, what, o, exe in ex.map(job, range(len(progs))):
                if what == "skipped":
                    stats["skipped"] += len(progs[i])
                elif what == "compile":
                    if o.resource:
                        stats["skipped"] += len(progs[i])
                        errors.append("compiler resources: " + o.log[-300:])
                    else:
                        failures.append((i, "compile", o, None))
                        stop[0] = True
                elif o.harness_error:
                    errors.append("rc=%s %s %s" % (o.rc, o.out[-300:], o.err[-500:]))
                elif o.failed:
                    failures.append((i, "run", o, exe))
                else:
                    stats["programs"] += 1
                    for u, unit in zip(o.data["units"], progs[i]):
                        stats["units"] += 1
                        stats["evals"] += u["evals"]
                        stats["nontrivial"] += u["nontrivial"]
                        stats["distinct"] += u["distinct"]
                        stats["checks"] += u["checks"]
                        stats["draws"] += u["draws"]
                        for l, c in u["labels"].items():
                            stats["labels"][l] = stats["labels"].get(l, 0) + c
                        stats["shapes"].add(hashlib.sha1(json.dumps(unit.desc, sort_keys=True).encode()).hexdigest())
                        if u["sample"] and len(stats["samples"]) < 4:
                            stats["samples"].append({"program": unit.desc, "case": u["sample"].splitlines()[:40]})
        for i, what, o, exe in failures:
            case, b = None, build_of(i)
            try:
                case = self.confirm_compile(b, progs[i], o) if what == "compile" else self.confirm_run(b, progs[i], o, exe)
            except Inconclusive as e:
                errors.append(str(e))
            if case:
                try:
                    case = self.shrink(b, case, k)
                except Exception as e:  # an input that is not minimal is better than none
                    print("note: shrinking failed: %r" % e, file=sys.stderr)
                case.opt = b.opt
                return self.report(tier, seed, t0, case, stats)
        if errors and (failures or stats["units"] < max(1, len(units) // 2)):
            for e in errors[:5]:
                print("error: " + e, file=sys.stderr)
            return 2
        return self.report(tier, seed, t0, None, stats)

    def optimised(self, b):
        """A second build, with optimisation, for a part of the programs."""
        work = os.path.join(b.work, "opt")
        os.mkdir(work)
        bo = Build(work, self.header, b.sanitize, self.extra, self.support, "-O2")
        try:
            bo.prepare()
        except CompileError:
            return None  # the same headers did compile without
        return bo

    # -- failures ----------------------------------------------------------
    def confirm_compile(self, b, units, err):
        """A program that is valid C++ for a correct library no longer compiles: find the unit."""
        for n, u in enumerate(units):
            fails = 0
            log = ""
            for _ in range(2):
                try:
                    b.compile([u], "c%d" % n)
                    break
                except CompileError as e:
                    if e.resource:
                        raise Inconclusive("compiler resources")
                    fails += 1
                    log = e.log
            if fails == 2:
                return Case(u, [], "the program does not compile: " + first_error(log), log[:6000], "compile")
        raise Inconclusive("compile failure of a program does not reproduce on its parts: " + err.log[:500])

    def confirm_run(self, b, units, o, exe):
        if not o.state:
            raise Inconclusive("no state after failure rc=%s %s" % (o.rc, o.err[-300:]))
        u, idx, choices = o.state
        case = Case(units[u], choices, o.message(), "", o.kind)
        r = None
        for _ in range(3):
            r = self.attempt(b, exe, u, choices, hang=o.kind == "hang")
            if not r.failed:
                raise Inconclusive("failure does not replay: " + o.message())
        case.message = r.message()
        case.trace = (r.data or {}).get("trace", "") or r.err[-3000:]
        case.kind = r.kind
        return case

    def attempt(self, b, exe, unit, choices, hang=False, k=0):
        f = tempfile.mktemp(dir=b.work, prefix="ch")
        with open(f, "w") as h:
            h.write(" ".join(map(str, choices)))
        r = b.execute(exe, ["replay", unit, f, k], cpu=30 if hang else 60, timeout=120)
        os.unlink(f)
        return r

    def shrink(self, b, case, k):
        deadline = time.time() + 60
        if self.shrink_unit:
            case = self.shrink_program(b, case, k, deadline)
        if case.kind == "compile":
            return case
        return self.shrink_choices(b, case, deadline + 30)

    def fails(self, b, unit, name, kind, k):
        try:
            exe = b.compile([unit], name)
        except CompileError as e:
            if kind == "compile" and not e.resource:
                return Case(unit, [], "the program does not compile: " + first_error(e.log), e.log[:6000], "compile")
            return None
        if kind == "compile":
            return None
        o = b.execute(exe, ["run", 1, self.cases[k], k], timeout=60)
        if o.failed and o.state and o.kind == kind:
            r = self.attempt(b, exe, 0, o.state[2])
            if r.failed:
                return Case(unit, o.state[2], r.message(), (r.data or {}).get("trace", "") or r.err[-3000:], r.kind)
        return None

    def shrink_program(self, b, case, k, deadline):
        rounds = 0
        while time.time() < deadline and rounds < 12:
            rounds += 1
            cands = []
            for u in self.shrink_unit(case.unit):
                cands.append(u)
                if len(cands) >= 24:
                    break
            if not cands:
                break
            found = None
            with cf.ThreadPoolExecutor(JOBS) as ex:
                futs = [ex.submit(self.fails, b, u, "s%d_%d" % (rounds, n), case.kind, k) if time.time() < deadline else None for n, u in enumerate(cands)]
                for f in futs:
                    r = f.result() if f and not found else None
                    if r and not found:
                        found = r
                        for g in futs:
                            g.cancel()
            if not found:
                break
            case = found
        return case

    def shrink_choices(self, b, case, deadline):
        try:
            exe = b.compile([case.unit], "final")
        except CompileError:
            return case
        best = list(case.choices)
        hang = case.kind == "hang"
        r = self.attempt(b, exe, 0, best, hang)
        if not r.failed:
            return case
        tries = 0
        limit = 10 if hang else 600

        def ok(ch):
            nonlocal tries, best, r
            if tries >= limit or time.time() > deadline:
                return False
            tries += 1
            q = self.attempt(b, exe, 0, ch, hang)
            if q.failed and q.kind == case.kind:
                r = q
                # what was actually drawn
                best = q.state[2] if q.state and len(q.state[2]) <= len(ch) else list(ch)
                return True
            return False

        improved = True
        while improved and tries < limit and time.time() < deadline:
            improved = False
            size = max(1, len(best) // 2)
            while size:
                i = 0
                while i < len(best):
                    c = best[:i] + best[i + size:]
                    if ok(c):
                        improved = True
                    else:
                        i += size
                size //= 2
            for i in range(len(best)):
                if i >= len(best):
                    break
                for v in (0, 1, best[i] // 2, best[i] - 1):
                    if i < len(best) and 0 <= v < best[i] and ok(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
        case.choices = best
        case.message = r.message()
        case.trace = (r.data or {}).get("trace", "") or r.err[-3000:]
        for _ in range(2):  # together with the last attempt: three replays
            if not self.attempt(b, exe, 0, best, hang).failed:
                break
        return case

    # -- output ------------------------------------------------------------
    def report(self, tier, seed, t0, case, stats):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", "replay-%s.json" % self.pid)
        if case:
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, kind=case.kind, message=case.message, program=case.unit.desc, choices=case.choices,
                               trace=case.trace.splitlines(), source=case.unit.code, seed=seed, flags=case.opt,
                               how="python3 check.py %s --replay %s" % (self.pid, path)), f, indent=1)
        s = stats or dict(evals=0, nontrivial=0, distinct=0, checks=0, draws=0, labels={}, samples=[], units=0, programs=0, skipped=0, shapes=set())
        cov = dict(evaluations=s["evals"], distinct_nontrivial=s["distinct"], rule=self.rule, samples=s["samples"] or [{"none": "no completed case"}],
                   oracle_checks=s["checks"], random_choices=s["draws"], generated_programs=s["programs"], generated_units=s["units"],
                   distinct_units=len(s["shapes"]), inconclusive_units=s["skipped"], classes=s["labels"])
        ev = dict(property=self.pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=self.assumptions + COMMON_ASSUMPTIONS,
                  wall_s=round(time.time() - t0, 2), violations=1 if case else 0)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if case:
            print("%s: %s" % (self.pid, case.message))
            for l in case.trace.splitlines()[:60]:
                print("    " + l[:300])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s: held on %d cases (%d distinct non-trivial) of %d generated units in %.1f s" %
              (self.pid, s["evals"], s["distinct"], s["units"], time.time() - t0))
        return 0

    def replay(self, b, path):
        d = json.load(open(path))
        b.opt = d.get("flags", "-O0")
        try:
            b.prepare()
            exe = b.compile([Unit(d["program"], d["source"])], "replay")
        except CompileError as e:
            print(e.log[:3000])
            print("VIOLATION property=%s replay=%s" % (self.pid, path) if not e.resource else "error: compiler resources")
            return 2 if e.resource else 1
        if d["kind"] == "compile":
            print("%s: the program compiles now" % self.pid)
            return 0
        r = self.attempt(b, exe, 0, d["choices"], d["kind"] == "hang")
        print((r.data or {}).get("trace", "") or r.err)
        if r.failed:
            print(r.message())
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s: holds on this input" % self.pid)
        return 0


COMMON_ASSUMPTIONS = [
    "g++ 13 with -std=gnu++20, most programs with -O0 and some with -O2; the standard headers the library uses without including are included first",
    "callables and values are copyable and well behaved (deterministic, equality is an equivalence; no NaN)",
]


def first_error(log):
    for l in log.splitlines():
        if "error" in l:
            return re.sub(r"^\S*/", "", l)[:300]
    return log[:200]
