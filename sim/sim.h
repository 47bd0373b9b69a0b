// What a harness sees: plans, random numbers, the runtime's interface.
#pragma once
#include "rt.h"
#include <cstring>
#include <string>
#include <vector>

namespace sim {

struct Rng { // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    bool rare(uint64_t n) { return below(n) == 0; }
    // around the powers of two (and of ten) where an implementation may change its ways or run out of bits
    int64_t huge() {
        static const int at[] = {1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 50000, 65536, 65536, 65536};
        return at[below(12)] + (chance(30) ? range(-2, 2) : range(0, 500));
    }
    // mostly small numbers, sometimes up to max
    int64_t small(int64_t max) {
        int64_t m = max;
        switch (below(4)) {
        case 0: m = max < 3 ? max : 3; break;
        case 1: m = max < 8 ? max : 8; break;
        default: break;
        }
        return range(0, m);
    }
};
inline uint64_t mix64(uint64_t a, uint64_t b = 0) {
    Rng r(a * 0x9e3779b97f4a7c15ull + b);
    r.next();
    return r.next() ^ b;
}

struct Op { // meaning of kind and fields: the harness; every vector of integers must be acceptable
    int kind = 0;
    std::vector<int64_t> f;
    int64_t at(size_t i) const { return i < f.size() ? f[i] : 0; }
    // field i as a number in [0,n)
    uint64_t mod(size_t i, uint64_t n) const {
        int64_t v = at(i);
        uint64_t u = v < 0 ? (uint64_t)(-(v + 1)) : (uint64_t)v;
        return n ? u % n : 0;
    }
};
struct Plan {
    std::vector<Op> ops;
    int scale = 1; // a workload that needs so many times the usual number of steps
    void add(int kind, std::vector<int64_t> f) { ops.push_back(Op{kind, std::move(f)}); }
};

struct Harness {
    const char *property;
    void (*gen)(Rng &, Plan &);                         // workload and faults from a seed
    void (*exec)(const Plan &);                         // runs inside the simulator
    const char *(*op_name)(int kind);                   // for the replay file
    std::vector<const char *> probes;                   // names of sim::probe ids
    std::vector<const char *> knobs = {};
    // how the scheduler is configured for this property: percent of runs without any preemption
    int none_pct = 10;
    bool threads = true; // false: single threaded workload, the schedule is trivial
};
extern Harness harness;

inline uint64_t bits(double d) {
    uint64_t u;
    std::memcpy(&u, &d, 8);
    return u;
}

} // namespace sim
