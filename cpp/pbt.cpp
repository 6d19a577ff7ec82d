#define PBT_SUPPORT
#include "pbt.h"
namespace pbt {
inline void run_one(const Unit &u, Ctx &c) {
    c.failed = c.nontrivial = false;
    c.items = c.nt_items = 0;
    c.msg.clear(); c.labels.clear(); c.log.clear();
    c.st->n = 0;
    try {
        u.run(c);
    } catch (const std::exception &e) {
        c.fail(std::string("unexpected exception: ") + e.what());
    } catch (...) {
        c.fail("unexpected exception");
    }
}

int engine(int argc, char **argv, const std::vector<Unit> &units) {
    // prog run STATE SEED CASES TIER | prog replay STATE UNIT CHOICESFILE TIER
    if (argc < 6) return 2;
    const std::string mode = argv[1];
    int fd = open(argv[2], O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(State))) return 2;
    auto *st = static_cast<State *>(mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (st == MAP_FAILED) return 2;
    st->magic = 0x706967726full;
    for (auto f : initialisers()) f();
    Ctx c;
    c.st = st;
    c.tier = atoi(argv[5]);
    if (mode == "replay") {
        u64 u = strtoull(argv[3], nullptr, 10);
        if (FILE *f = fopen(argv[4], "r")) {
            unsigned long long v;
            while (fscanf(f, "%llu", &v) == 1) c.replay.push_back(v);
            fclose(f);
        }
        c.replaying = true;
        c.trace = true;
        st->unit = u;
        st->index = 0;
        run_one(units.at(u), c);
        printf("{\"failed\": %s, \"nontrivial\": %s, \"msg\": %s, \"trace\": %s}\n", c.failed ? "true" : "false",
          c.nontrivial ? "true" : "false", json(c.msg).c_str(), json(c.log).c_str());
        fflush(stdout);
        return c.failed ? 3 : 0;
    }
    const u64 seed = strtoull(argv[3], nullptr, 10), cases = strtoull(argv[4], nullptr, 10);
    std::string out = "{\"units\": [";
    for (size_t u = 0; u < units.size(); ++u) {
        u64 evals = 0, nontrivial = 0, checks = 0, draws = 0;
        std::unordered_set<u64> seen;
        std::map<std::string, u64> labels;
        std::vector<u64> sample;
        bool have_sample = false;
        for (u64 i = 0; i < cases; ++i) {
            st->unit = u;
            st->index = i;
            c.rng = mix(mix(seed, u), i);
            c.checks = 0;
            run_one(units[u], c);
            ++evals;
            checks += c.checks;
            draws += st->n;
            if (c.failed) {
                printf("{\"failed\": true, \"unit\": %zu, \"case\": %llu, \"msg\": %s}\n", u, (unsigned long long)i, json(c.msg).c_str());
                fflush(stdout);
                return 3;
            }
            for (auto &l : c.labels) ++labels[l];
            if (c.nontrivial) {
                ++nontrivial;
                u64 h = u;
                for (u64 k = 0; k < st->n; ++k) h = mix(h, st->choices[k]);
                seen.insert(h);
                if (!have_sample || (st->n < sample.size() && i < 50)) {
                    sample.assign(st->choices, st->choices + st->n);
                    have_sample = true;
                }
            }
            if (st->n == 0 && c.items) { // facts without choices: every one counts on its own
                evals += c.items - 1;
                nontrivial += c.nt_items;
                for (u64 k = 0; k < c.nt_items; ++k) seen.insert(mix(u, k));
                if (c.nt_items) have_sample = true;
            }
            if (st->n == 0) break; // nothing random in this unit: one case is all there is
        }
        std::string trace;
        if (have_sample) {
            c.replaying = c.trace = true;
            c.replay = sample;
            run_one(units[u], c);
            trace = c.log;
            c.replaying = c.trace = false;
        }
        if (u) out += ",";
        out += "{\"name\": " + json(units[u].name) + ", \"evals\": " + S(evals) + ", \"nontrivial\": " + S(nontrivial) + ", \"distinct\": " + S(seen.size())
               + ", \"checks\": " + S(checks) + ", \"draws\": " + S(draws) + ", \"sample\": " + json(trace) + ", \"labels\": {";
        bool first = true;
        for (auto &[l, n] : labels) { out += (first ? "" : ", ") + json(l) + ": " + S(n); first = false; }
        out += "}}";
    }
    out += "]}";
    puts(out.c_str());
    fflush(stdout);
    return 0;
}
} // namespace pbt
