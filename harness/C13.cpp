// C13: seeded random series are reproducible; unseeded ones use fresh entropy.
#include "common.h"
#include <dataframe/functional/math/random.h>
#include <map>
using namespace h;

namespace {

enum { O_REQ, O_FAULT };
enum { P_SEEDED, P_UNSEEDED, P_AGAIN, P_OTHER_THREAD, P_ISOLATED, P_ENT_FAIL, P_ENT_RECOVERED, P_ENT_DUP, P_ENT_DIFF, P_BOUNDS_EXTREME, P_EMPTY, P_OOM, P_THREADS, P_AFTER };
enum { K_SEEDED, K_UNSEEDED, K_DEFAULTS };
enum { E_NORMAL, E_DUP, E_FAIL, E_FAIL_LATER };

const double bounds[][2] = {{0, 1}, {-1, 1}, {0, 10}, {-1e-3, 1e-3}, {1, 1}, {-5, -2}, {0, 1e300}, {-8e307, 8e307}, {0, 5e-324}, {1, 1.0000000000000002}, {-1e9, 1e9 + 1}, {-0.0, 0.0}, {1e15, 1e15 + 1}, {3, 7.5}};
const int NB = sizeof bounds / sizeof *bounds;
bool wide(int b) { return b < 4 || b == 5 || b == 6 || b == 7 || b == 10 || b == 13; }
const unsigned seeds[] = {0, 1, 2, 3, 42, 0xffffffffu, 0x80000000u, 12345, 5489, 7};

void gen(Rng &r, Plan &p) {
    int nt = r.chance(40) ? 1 : 2 + r.below(3);
    int e = r.chance(45) ? E_NORMAL : 1 + (int)r.below(3);
    p.add(O_FAULT, {e, (i64)(r.next() >> 33), 1 + r.small(10)});
    int n = nt + 1 + r.below(r.chance(15) ? 40 : 14);
    int few = 1 + (int)r.below(4);
    bool mostly = r.chance(50);
    for (int i = 0; i < n; i++) {
        int k = r.chance(mostly ? 65 : 40) ? K_SEEDED : 1 + (int)r.below(2);
        p.add(O_REQ, {i < nt ? (i64)i : (i64)r.below(nt), k, r.chance(70) ? (i64)r.below(few) : (i64)r.below(10), r.rare(1500) ? (p.scale = 30, r.huge()) : r.chance(8) ? 0 : 1 + r.small(r.chance(5) ? 700 : r.chance(1) ? 7000 : 40), 1 + (i64)r.below(r.chance(50) ? 2 : 9), r.chance(60) ? (i64)r.below(few) : (i64)r.below(NB),
                      r.chance(10) ? 1 + r.small(12) : 0});
    }
}

struct Req {
    int thread, kind, bounds;
    unsigned seed;
    uint32_t count, itemSize;
    i64 falloc;
    Outcome got;
    bool done = false;
    u64 draws = 0;
    std::string str() const {
        char b[200];
        if (kind == K_SEEDED)
            snprintf(b, sizeof b, "random(%u, %u, %.17g, %.17g, %u)", count, itemSize, h_min(), h_max(), seed);
        else if (kind == K_UNSEEDED)
            snprintf(b, sizeof b, "random(%u, %u, %.17g, %.17g)", count, itemSize, h_min(), h_max());
        else
            snprintf(b, sizeof b, "random(%u, %u)", count, itemSize);
        return b;
    }
    double h_min() const { return kind == K_DEFAULTS ? 0 : ::bounds[bounds][0]; }
    double h_max() const { return kind == K_DEFAULTS ? 1 : ::bounds[bounds][1]; }
    // requests with the same key must give the same series
    std::vector<u64> key() const { return {seed, count, itemSize, sim::bits(h_min()), sim::bits(h_max())}; }
};

Outcome request(const Req &q) {
    double lo = q.h_min(), hi = q.h_max();
    return outcome_of([&] {
        switch (q.kind) {
        case K_SEEDED: return df::math::random(q.count, q.itemSize, lo, hi, q.seed);
        case K_UNSEEDED: return df::math::random(q.count, q.itemSize, lo, hi);
        default: return df::math::random(q.count, q.itemSize);
        }
    });
}

void check_values(const Req &q) { // shape and bounds
    if (!q.got.ok) return;
    const Words &w = q.got.w;
    if (w.size() < 5 || w[1] != q.itemSize || w[2] != q.count || w[4] != (u64)q.count * q.itemSize)
        sim::violation("wrong-shape", "%s gives %s", q.str().c_str(), q.got.str().c_str());
    for (size_t i = 5; i < w.size(); i++) {
        double d;
        std::memcpy(&d, &w[i], 8);
        if (!(d >= q.h_min() && d <= q.h_max())) sim::violation("out-of-bounds", "%s gives %.17g at %zu", q.str().c_str(), d, i - 5);
    }
}

void exec(const Plan &p) {
    std::vector<Req> reqs;
    int mode = E_NORMAL, nt = 1;
    u64 val = 0, at = 1;
    std::map<std::vector<u64>, std::pair<Outcome, int>> seen;
    {
        Off off;
        for (const auto &o : p.ops)
            if (o.kind == O_FAULT) {
                mode = (int)o.mod(0, 4);
                val = o.mod(1, 1ull << 32);
                at = 1 + (u64)o.mod(2, 64);
            } else {
                Req q;
                q.thread = (int)o.mod(0, 5);
                q.kind = (int)o.mod(1, 3);
                q.seed = seeds[o.mod(2, 10)];
                q.count = (uint32_t)o.mod(3, 80000);
                q.itemSize = 1 + (uint32_t)((o.at(4) < 1 ? 0 : o.at(4) - 1) % 9);
                q.bounds = (int)o.mod(5, NB);
                q.falloc = (i64)o.mod(6, 16);
                nt = std::max(nt, q.thread + 1);
                reqs.push_back(q);
            }
        if (nt > 1) sim::probe(P_THREADS);
    }
    // one seeded request alone, in a process in which nothing else happens
    for (auto &q : reqs)
        if (q.kind == K_SEEDED) {
            Outcome alone;
            if (isolated_outcome([&] { return request(q); }, alone)) {
                Off off;
                seen[q.key()] = {alone, -1};
                sim::probe(P_ISOLATED);
            }
            break;
        }
    if (mode == E_DUP) sim::entropy(1, val, 0);
    if (mode == E_FAIL) sim::entropy(2, 0, 1);
    if (mode == E_FAIL_LATER) sim::entropy(2, 0, at);
    on_threads(nt, [&](int t) {
        bool failed = false; // the entropy source was seen failing
        for (auto &q : reqs) {
            if (q.thread != t) continue;
            u64 d0 = sim::entropy_draws();
            if (q.falloc) sim::alloc_fault((u64)q.falloc, true);
            Outcome o = request(q);
            u64 fired = sim::alloc_fault_end();
            u64 d1 = sim::entropy_draws();
            Off off;
            sim::log(o.hash());
            q.draws = d1 - d0;
            if (q.kind != K_SEEDED && d1 == d0 && !(o.oom && fired)) sim::violation("no-entropy", "%s: drew nothing from the system's entropy source", q.str().c_str());
            if (!o.ok) {
                bool source = q.kind != K_SEEDED && (mode == E_FAIL || mode == E_FAIL_LATER);
                if (o.oom && fired) {
                    sim::probe(P_OOM);
                    continue;
                }
                if (!source) sim::violation("unexpected-exception", "%s: %s", q.str().c_str(), o.str().c_str());
                if (nt == 1 && mode == E_FAIL_LATER && d1 < at) sim::violation("unexpected-exception", "%s: %s at draw %llu, the source fails from %llu on", q.str().c_str(), o.str().c_str(), (unsigned long long)d1, (unsigned long long)at);
                failed = true;
                sim::probe(P_ENT_FAIL);
            } else if (q.kind != K_SEEDED && (mode == E_FAIL || (mode == E_FAIL_LATER && (failed || (nt == 1 && d1 >= at)))))
                sim::violation("failure-hidden", "%s: the entropy source failed, but the request gave a series", q.str().c_str());
            q.got = std::move(o);
            q.done = true;
        }
    });
    // the source is back
    sim::entropy(0, 0, 0);
    std::vector<Req> more;
    {
        Off off;
        for (size_t i = 0; i < reqs.size(); i++) {
            Req &q = reqs[i];
            if (!q.done) continue;
            check_values(q);
            if (!q.count) sim::probe(P_EMPTY);
            if (q.bounds >= 6) sim::probe(P_BOUNDS_EXTREME);
            if (!q.got.ok) continue;
            if (q.kind == K_SEEDED) {
                sim::probe(P_SEEDED);
                auto it = seen.find(q.key());
                if (it == seen.end())
                    seen[q.key()] = {q.got, q.thread};
                else {
                    sim::probe(it->second.second == q.thread ? P_AGAIN : P_OTHER_THREAD);
                    check_same("not-reproducible", q.str().c_str(), it->second.first, q.got);
                }
            } else {
                sim::probe(P_UNSEEDED);
                for (size_t j = 0; j < i; j++) {
                    Req &o = reqs[j];
                    if (!o.done || !o.got.ok || o.kind == K_SEEDED || o.count != q.count || o.itemSize != q.itemSize || sim::bits(o.h_min()) != sim::bits(q.h_min()) || sim::bits(o.h_max()) != sim::bits(q.h_max())) continue;
                    if (mode == E_DUP) {
                        sim::probe(P_ENT_DUP);
                        if (!(o.got == q.got)) sim::violation("not-from-entropy", "%s: two requests with the same entropy give %s and %s", q.str().c_str(), o.got.str().c_str(), q.got.str().c_str());
                    } else if (wide(q.kind == K_DEFAULTS ? 0 : q.bounds) && (u64)q.count * q.itemSize >= 4) {
                        sim::probe(P_ENT_DIFF);
                        if (o.got == q.got) sim::violation("stale-seed", "%s: two requests with different entropy give the same series %s", q.str().c_str(), q.got.str().c_str());
                    }
                }
            }
        }
    }
    for (auto &q : reqs) { // after everything else
        Outcome o = request(q);
        Off off;
        if (!o.ok) sim::violation("unexpected-exception", "%s after the entropy source has recovered: %s", q.str().c_str(), o.str().c_str());
        if (q.kind == K_SEEDED) {
            auto it = seen.find(q.key());
            if (it != seen.end()) check_same("not-reproducible", q.str().c_str(), it->second.first, o);
            sim::probe(P_AFTER);
        } else if (mode != E_NORMAL)
            sim::probe(P_ENT_RECOVERED);
        q.got = std::move(o);
        check_values(q);
    }
}

const char *op_name(int k) { return k == O_FAULT ? "entropy(mode,value,failsFrom)" : "request(thread,kind,seed,count,itemSize,bounds,failingAllocation)"; }

} // namespace

sim::Harness sim::harness = {"C13", gen, exec, op_name,
                             {"seeded request", "unseeded request", "same request again", "same request on another thread", "request alone in a process", "entropy source failed", "entropy source recovered", "same entropy twice", "different entropy", "unusual bounds",
                              "empty series", "out of memory", "several threads", "request after the threads"}};
