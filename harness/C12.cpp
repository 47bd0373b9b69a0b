// C12: one memoized function may be shared by several threads.
#include "memo.h"
using namespace h;

namespace {

enum { O_CONFIG, O_STEP };
enum { P_CALL, P_HIT, P_SAME_SERIES, P_CLEAR, P_COPY, P_ASSIGN, P_RECURSIVE, P_MUTUAL, P_THROW, P_OOM, P_SLOW, P_OVERLAP, P_AFTER, P_COPYCLEAR };
enum { F_PLAIN, F_RECURSIVE, F_MUTUAL, F_KINDS };
enum { S_CALL, S_CLEAR, S_COPYCALL, S_COPYCLEAR, S_ASSIGN, S_KINDS };

void gen(Rng &r, Plan &p) {
    int nt = 2 + r.below(3);
    u64 seed = r.next() >> 1;
    if (seed % 256 == 9) p.scale = 30; // huge series
    p.add(O_CONFIG, {(i64)r.below(F_KINDS), (i64)r.below(4), (i64)r.below(3), (i64)seed});
    int n = nt + r.below(r.chance(20) ? 40 : 14);
    int few = 1 + (int)r.below(r.chance(50) ? 4 : 48);
    bool clears = r.chance(60), fails = r.chance(50);
    for (int i = 0; i < n; i++) {
        int k = clears ? (r.chance(75) ? S_CALL : (int)r.below(S_KINDS)) : r.chance(90) ? S_CALL : S_COPYCALL;
        p.add(O_STEP, {i < nt ? (i64)i : (i64)r.below(nt), k, (i64)r.below(few), (i64)r.below(2), fails && r.chance(25) ? 1 + (i64)r.below(r.chance(50) ? 5 : ANY_KINDS) : 0, fails && r.chance(15) ? 1 + r.small(14) : 0, (i64)r.chance(50)});
    }
}

struct PerThread {
    int fail = 0; // what the next evaluation on this thread throws
    bool thrown = false;
    int evals = 0, inside = 0;
};
PerThread per[sim::MAX_THREADS + 1];
struct Progress {
    int evaluating = 0;
} progress;

void evaluated() {
    int f;
    {
        Off off;
        PerThread &t = per[sim::self()];
        t.evals++;
        f = t.fail;
        t.fail = 0;
        if (f) {
            t.thrown = true;
            sim::fired(sim::F_CALLBACK);
        }
    }
    if (f) throw_any((u64)f - 1, 17);
}

struct Fn;
using Memo = df::utils::Memoized<Fn>;
struct World { // two memoized functions that may call each other
    Memo *m[2] = {nullptr, nullptr};
    int kind = 0, slow = 0;
};
World *world;

struct Fn {
    u64 salt;
    int which;
    df::Serie operator()(const df::Serie &s) const {
        {
            Off off;
            if (++progress.evaluating > 1) sim::probe(P_OVERLAP);
        }
        struct Leave {
            ~Leave() {
                Off off;
                progress.evaluating--;
            }
        } leave;
        if (world->slow == 1) sim::yield_point();
        if (world->slow == 2) sim::sleep_ns(1000000 * (1 + (u64)s.count() % 100));
        evaluated();
        if (world->kind == F_PLAIN || s.count() < 2 || s.count() > 60 || s.itemSize() < 1) return digest(s, salt);
        Array a = s.asArray();
        a.resize(a.size() - s.itemSize());
        int other = world->kind == F_MUTUAL ? 1 - which : which;
        df::Serie inner = (*world->m[other])(df::Serie(s.itemSize(), a, s.dimension()));
        df::Serie d = digest(s, salt);
        if (d.asArray().empty()) return d;
        Array v = d.asArray();
        if (!inner.asArray().empty()) v[0] += inner.asArray()[0];
        return df::Serie(d.itemSize(), v, d.dimension());
    }
};
df::Serie expected(int kind, u64 salt, int which, const df::Serie &s) {
    if (kind == F_PLAIN || s.count() < 2 || s.count() > 60 || s.itemSize() < 1) return digest(s, salt + which);
    Array a = s.asArray();
    a.resize(a.size() - s.itemSize());
    int other = kind == F_MUTUAL ? 1 - which : which;
    df::Serie inner = expected(kind, salt, other, df::Serie(s.itemSize(), a, s.dimension()));
    df::Serie d = digest(s, salt + which);
    if (d.asArray().empty()) return d;
    Array v = d.asArray();
    if (!inner.asArray().empty()) v[0] += inner.asArray()[0];
    return df::Serie(d.itemSize(), v, d.dimension());
}

struct Step {
    int thread, kind, which, fthrow;
    u64 k;
    i64 falloc;
    bool persistent;
    df::Serie arg;
    Words id, want;
};

void exec(const Plan &p) {
    std::vector<Step> steps;
    World w;
    int nt = 2;
    u64 salt = 1, seed = 1;
    {
        Off off;
        world = &w;
        for (auto &x : per) x = PerThread();
        for (const auto &o : p.ops)
            if (o.kind == O_CONFIG) {
                w.kind = (int)o.mod(0, F_KINDS);
                salt = 100 + 2 * o.mod(1, 4);
                w.slow = (int)o.mod(2, 3);
                seed = (u64)o.at(3);
            } else {
                Step s;
                s.thread = (int)o.mod(0, 4);
                s.kind = (int)o.mod(1, S_KINDS);
                s.k = o.mod(2, LOOK_ALIKES);
                s.which = (int)o.mod(3, 2);
                s.fthrow = (int)o.mod(4, 1 + ANY_KINDS);
                s.falloc = (i64)o.mod(5, 16);
                s.persistent = o.at(6) & 1;
                nt = std::max(nt, s.thread + 1);
                steps.push_back(s);
            }
        std::vector<int> seen(2 * LOOK_ALIKES);
        for (auto &s : steps) {
            s.arg = look_alike(seed, s.k);
            s.id = words(s.arg);
            s.want = words(expected(w.kind, salt, s.which, s.arg));
            if (s.kind == S_CALL && seen[s.k + LOOK_ALIKES * s.which]++) sim::probe(P_SAME_SERIES);
        }
        if (w.kind == F_RECURSIVE) sim::probe(P_RECURSIVE);
        if (w.kind == F_MUTUAL) sim::probe(P_MUTUAL);
        if (w.slow == 2) sim::probe(P_SLOW);
    }
    Memo m0 = df::utils::memoize(Fn{salt, 0}), m1 = df::utils::memoize(Fn{salt + 1, 1});
    w.m[0] = &m0;
    w.m[1] = &m1;
    auto call = [&](const Memo &m, Step &s, bool faults, const char *how) {
        PerThread *t;
        int e0;
        {
            Off off;
            t = &per[sim::self()];
            t->thrown = false;
            t->fail = faults ? s.fthrow : 0;
            e0 = t->evals;
        }
        Outcome got;
        if (faults && s.falloc) sim::alloc_fault((u64)s.falloc, s.persistent);
        try {
            df::Serie r = m(s.arg);
            sim::alloc_fault_end();
            Off off;
            got.ok = true;
            got.w = words(r);
        } catch (...) {
            sim::alloc_fault_end();
            got = current_exception_outcome();
        }
        Off off;
        t->fail = 0;
        sim::probe(P_CALL);
        if (t->evals == e0) sim::probe(P_HIT);
        if (got.ok) {
            if (t->thrown) sim::violation("failure-hidden", "%s for %s: the function threw on this thread, the call gave %s", how, show(s.id).c_str(), got.str().c_str());
            if (got.w != s.want) sim::violation("wrong-result", "%s for %s: gives %s, the function gives %s", how, show(s.id).c_str(), show(got.w).c_str(), show(s.want).c_str());
        } else {
            if (got.oom && (faults && s.falloc))
                sim::probe(P_OOM);
            else if (t->thrown) {
                sim::probe(P_THROW);
                if (!(got == any_outcome((u64)s.fthrow - 1, 17))) sim::violation("wrong-exception", "%s: the function threw %d, the caller got %s", how, s.fthrow, got.str().c_str());
            } else
                sim::violation("failed-by-another", "%s for %s: no evaluation of this call failed, but it fails with %s", how, show(s.id).c_str(), got.str().c_str());
        }
        if (words(s.arg) != s.id) sim::violation("input-changed", "%s: the argument was changed", how);
        sim::log(got.hash());
    };
    on_threads(nt, [&](int t) {
        for (auto &s : steps) {
            if (s.thread != t) continue;
            Memo &m = s.which ? m1 : m0;
            switch (s.kind) {
            case S_CALL: call(m, s, true, "call of the shared memoized function"); break;
            case S_CLEAR:
                m.clear_cache();
                sim::probe(P_CLEAR);
                break;
            case S_COPYCALL: {
                const Memo c(m);
                call(c, s, true, "call of a copy of the memoized function");
                sim::probe(P_COPY);
                break;
            }
            case S_COPYCLEAR: {
                Memo c = m;
                c.clear_cache();
                call(c, s, false, "call of a cleared copy of the memoized function");
                sim::probe(P_COPYCLEAR);
                break;
            }
            default: {
                if constexpr (std::is_copy_assignable_v<Memo>) {
                    Memo c = s.which ? m0 : m1;
                    call(m, s, false, "call of the shared memoized function");
                    c = m; // from the shared one, which others use
                    call(c, s, false, "call of an assigned copy of the memoized function");
                    sim::probe(P_ASSIGN);
                }
                break;
            }
            }
        }
    });
    for (auto &s : steps) { // afterwards everything is right as well
        call(s.which ? m1 : m0, s, false, "call after the threads have finished");
        sim::probe(P_AFTER);
    }
}

const char *op_name(int k) { return k == O_CONFIG ? "memoized(function,salt,slow,seed)" : "step(thread,kind,lookAlike,which,throws,failingAllocation,persistent)"; }

} // namespace

sim::Harness sim::harness = {"C12", gen, exec, op_name,
                             {"call", "remembered result", "same series more than once", "cache cleared while in use", "copied while in use", "assigned while in use", "recursive function", "mutually recursive functions", "function threw", "out of memory", "slow evaluation"
                              , "evaluations at the same time", "call after the threads", "copy cleared"}};
