// Choice-sequence property testing engine. A case is a pure function of the
// choices it draws; the driver (pbt/core.py) records, replays and shrinks them.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <climits>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace pbt {
using u32 = std::uint32_t;
using u64 = std::uint64_t;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline u64 mix(u64 a, u64 b) { return mix(mix(a) ^ (b + 0x632be59bd9b4e019ull)); }

// Shared with the driver, so that it survives a crash of this process.
struct State {
    u64 magic, unit, index, n;
    u64 choices[1 << 16];
};

struct Ctx {
    State *st = nullptr;
    u64 rng = 0;
    bool replaying = false;
    std::vector<u64> replay;
    bool trace = false;
    bool failed = false;
    std::string msg;
    bool nontrivial = false;
    std::set<std::string> labels;
    std::string log;
    u64 checks = 0;
    u64 items = 0, nt_items = 0; // independent facts within one case (for facts without runtime choices)
    int tier = 0; // 0 quick, 1 thorough

    u64 draw(u64 n) { // in [0, n)
        if (n <= 1) return 0;
        u64 v;
        const auto i = st->n;
        if (replaying) {
            v = i < replay.size() ? std::min(replay[i], n - 1) : 0;
        } else {
            rng = mix(rng);
            v = rng % n;
        }
        if (st->n < std::size(st->choices)) st->choices[st->n++] = v;
        return v;
    }
    bool chance(u64 num, u64 den) { return draw(den) >= den - num; } // shrinks to false
    u64 range(u64 lo, u64 hi) { return lo + draw(hi - lo + 1); }

    void fail(std::string m) {
        if (failed) return;
        failed = true;
        msg = std::move(m);
        say("FAILED: " + msg);
    }
    bool check(bool ok, const char *what) {
        ++checks;
        if (!ok) fail(what);
        return ok;
    }
    template<class F>
    bool checkf(bool ok, F &&what) {
        ++checks;
        if (!ok) fail(what());
        return ok;
    }
    void say(const std::string &s) {
        if (trace) { log += s; log += '\n'; }
    }
    template<class F>
    void sayf(F &&f) { if (trace) say(f()); }
    void item(bool nt, const char *what = nullptr) { ++items; nt_items += nt; if (trace && what) say(what); }
    void label(const char *l) { labels.insert(l); }
};

struct Unit {
    const char *name;
    void (*run)(Ctx &);
};

inline std::string S(auto const &x) { std::ostringstream o; o << x; return o.str(); }

inline std::string json(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

// Per-process setup that must not run within a case (tables of values and so on).
inline std::vector<void (*)()> &initialisers() { static std::vector<void (*)()> v; return v; }

int engine(int argc, char **argv, const std::vector<Unit> &units);
} // namespace pbt
